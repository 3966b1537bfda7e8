// node ts_ast.js FILE.ts: the module's syntax tree, after the TypeScript compiler has taken the types out
// and rewritten what is newer than ES2022, as nested arrays: [kind, ...].
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const text = fs.readFileSync(process.argv[2], "utf8");
const js = ts.transpileModule(text, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, useDefineForClassFields: true, removeComments: true } }).outputText;
const src = ts.createSourceFile("m.js", js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
const K = ts.SyntaxKind;
const all = a => a.map(n);
const opt = x => (x ? n(x) : null);
const tok = k => ts.tokenToString(k);
function params(f) { return f.parameters.map(p => [pat(p.name), opt(p.initializer), p.dotDotDotToken ? 1 : 0]); }
function has(x, k) { return (x.modifiers || []).some(m => m.kind === k); }
function pat(p) {
	if (ts.isIdentifier(p)) return ["id", p.text];
	if (ts.isObjectBindingPattern(p)) return ["objpat", p.elements.map(e => [e.propertyName ? e.propertyName.text : e.name.text, pat(e.name), opt(e.initializer), e.dotDotDotToken ? 1 : 0])];
	if (ts.isArrayBindingPattern(p)) return ["arrpat", p.elements.map(e => (ts.isOmittedExpression(e) ? null : [pat(e.name), opt(e.initializer), e.dotDotDotToken ? 1 : 0]))];
	return ["unsupported", K[p.kind]];
}
function key(k) { return ts.isComputedPropertyName(k) ? n(k.expression) : ts.isPrivateIdentifier(k) || ts.isIdentifier(k) || ts.isStringLiteral(k) || ts.isNumericLiteral(k) ? ["str", k.text] : ["unsupported", K[k.kind]]; }
function body(f) { return f.body ? (ts.isBlock(f.body) ? n(f.body) : ["return", n(f.body)]) : null; }
function fn(f, arrow) { return ["func", f.name && f.name.text || "", params(f), body(f), arrow ? 1 : 0, has(f, K.AsyncKeyword) ? 1 : 0, f.asteriskToken ? 1 : 0]; }
function cls(x) {
	return ["class", x.name ? x.name.text : "", x.heritageClauses ? n(x.heritageClauses[0].types[0].expression) : null, x.members.filter(m => !ts.isSemicolonClassElement(m)).map(m => {
		const s = has(m, K.StaticKeyword) ? 1 : 0;
		if (ts.isConstructorDeclaration(m)) return ["ctor", 0, ["str", ""], fn(m)];
		if (ts.isMethodDeclaration(m)) return ["method", s, key(m.name), fn(m)];
		if (ts.isGetAccessor(m)) return ["get", s, key(m.name), fn(m)];
		if (ts.isSetAccessor(m)) return ["set", s, key(m.name), fn(m)];
		if (ts.isPropertyDeclaration(m)) return ["field", s, key(m.name), opt(m.initializer)];
		if (ts.isClassStaticBlockDeclaration(m)) return ["static", 1, ["str", ""], n(m.body)];
		return ["unsupported", K[m.kind]];
	})];
}
function vars(l) { return ["var", l.declarations.map(d => [pat(d.name), opt(d.initializer)])]; }
// An optional chain ends, as a whole, at its first missing link.
function n(x) {
	return ts.isOptionalChain(x) && !(x.parent && ts.isOptionalChain(x.parent) && x.parent.expression === x) ? ["chain", m(x)] : m(x);
}
function m(x) {
	switch (x.kind) {
		case K.SourceFile: return ["block", all(x.statements)];
		case K.Block: return ["block", all(x.statements)];
		case K.VariableStatement: return vars(x.declarationList);
		case K.VariableDeclarationList: return vars(x);
		case K.ExpressionStatement: return ["expr", n(x.expression)];
		case K.EmptyStatement: return ["block", []];
		case K.IfStatement: return ["if", n(x.expression), n(x.thenStatement), opt(x.elseStatement)];
		case K.WhileStatement: return ["while", n(x.expression), n(x.statement)];
		case K.DoStatement: return ["do", n(x.statement), n(x.expression)];
		case K.ForStatement: return ["for", opt(x.initializer), opt(x.condition), opt(x.incrementor), n(x.statement)];
		case K.ForOfStatement: return ["forof", ts.isVariableDeclarationList(x.initializer) ? pat(x.initializer.declarations[0].name) : n(x.initializer), n(x.expression), n(x.statement)];
		case K.ReturnStatement: return ["return", opt(x.expression)];
		case K.ThrowStatement: return ["throw", n(x.expression)];
		case K.BreakStatement: return ["break", x.label ? x.label.text : null];
		case K.ContinueStatement: return ["continue", x.label ? x.label.text : null];
		case K.LabeledStatement: return ["label", x.label.text, n(x.statement)];
		case K.TryStatement: return ["try", n(x.tryBlock), x.catchClause ? [x.catchClause.variableDeclaration ? pat(x.catchClause.variableDeclaration.name) : null, n(x.catchClause.block)] : null, opt(x.finallyBlock)];
		case K.SwitchStatement: return ["switch", n(x.expression), x.caseBlock.clauses.map(c => [c.expression ? n(c.expression) : null, all(c.statements)])];
		case K.FunctionDeclaration: return ["fundecl", x.name ? x.name.text : "default", fn(x), has(x, K.DefaultKeyword) ? 1 : 0];
		case K.ClassDeclaration: return ["classdecl", x.name ? x.name.text : "default", cls(x), has(x, K.DefaultKeyword) ? 1 : 0];
		case K.ExportAssignment: return ["export", n(x.expression)];
		case K.ImportDeclaration: return ["block", []];
		case K.ExportDeclaration: return x.exportClause && x.exportClause.elements ? ["exports", x.exportClause.elements.map(e => [(e.propertyName || e.name).text, e.name.text])] : ["block", []];
		case K.Identifier: case K.PrivateIdentifier: return ["id", x.text];
		case K.ThisKeyword: return ["this"];
		case K.SuperKeyword: return ["super"];
		case K.NullKeyword: return ["null"];
		case K.TrueKeyword: return ["bool", 1];
		case K.FalseKeyword: return ["bool", 0];
		case K.NumericLiteral: return ["num", Number(x.text)];
		case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return ["str", x.text];
		case K.RegularExpressionLiteral: { const i = x.text.lastIndexOf("/"); return ["regex", x.text.slice(1, i), x.text.slice(i + 1)]; }
		case K.TemplateExpression: return ["template", x.head.text, x.templateSpans.map(s => [n(s.expression), s.literal.text])];
		case K.ParenthesizedExpression: return n(x.expression);
		case K.PropertyAccessExpression: return [x.questionDotToken ? "optget" : "get", n(x.expression), ["str", x.name.text]];
		case K.ElementAccessExpression: return [x.questionDotToken ? "optget" : "get", n(x.expression), n(x.argumentExpression)];
		case K.CallExpression: return x.expression.kind === K.ImportKeyword ? ["import", n(x.arguments[0])] : [x.questionDotToken ? "optcall" : "call", n(x.expression), all(x.arguments)];
		case K.NewExpression: return ["new", n(x.expression), all(x.arguments || [])];
		case K.SpreadElement: return ["spread", n(x.expression)];
		case K.ArrayLiteralExpression: return ["array", all(x.elements)];
		case K.ObjectLiteralExpression: return ["object", x.properties.map(p => ts.isShorthandPropertyAssignment(p) ? [["str", p.name.text], ["id", p.name.text]] : ts.isPropertyAssignment(p) ? [key(p.name), n(p.initializer)] : ts.isMethodDeclaration(p) ? [key(p.name), fn(p)] : ts.isSpreadAssignment(p) ? [null, n(p.expression)] : [["unsupported", K[p.kind]], ["null"]])];
		case K.ArrowFunction: return fn(x, true);
		case K.FunctionExpression: return fn(x);
		case K.ClassExpression: return cls(x);
		case K.ConditionalExpression: return ["cond", n(x.condition), n(x.whenTrue), n(x.whenFalse)];
		case K.BinaryExpression: return ["bin", tok(x.operatorToken.kind), n(x.left), n(x.right)];
		case K.PrefixUnaryExpression: return ["un", tok(x.operator), n(x.operand)];
		case K.PostfixUnaryExpression: return ["post", tok(x.operator), n(x.operand)];
		case K.TypeOfExpression: return ["un", "typeof", n(x.expression)];
		case K.VoidExpression: return ["un", "void", n(x.expression)];
		case K.DeleteExpression: return ["un", "delete", n(x.expression)];
		case K.AwaitExpression: return ["await", n(x.expression)];
		default: return ["unsupported", K[x.kind]];
	}
}
console.log(JSON.stringify(n(src)));
