// Mutation analysis of the checks: small syntactic changes to the SDK's source
// (in memory, /repo is not touched), each judged by all the properties' runs.
//   node tools/mutate.mjs [--runs N] [--jobs N] [--out FILE] [--file REGEX] [--sample N]
// A developer's instrument: it finds what the generators do not reach. No
// registered check depends on it.
import { fork } from 'node:child_process';
import fs from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import os from 'node:os';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const REPO = process.env.VERIF_REPO ?? '/repo';
const require = createRequire(import.meta.url);
const ts = require('/opt/veriftools/node/node_modules/typescript');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const argv = process.argv.slice(2);
const flag = (n, d) => { const i = argv.indexOf(`--${n}`); return i < 0 ? d : argv[i + 1]; };
const PROPS = Array.from({ length: 22 }, (_, i) => `C${String(i + 1).padStart(2, '0')}`);
const ORDER = ['C13', 'C22', 'C14', 'C16', 'C02', 'C03', 'C10', 'C20', 'C09', 'C15', 'C04', 'C08', 'C06', 'C19', 'C12', 'C11', 'C07', 'C01', 'C18', 'C17', 'C05', 'C21'];

function files(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) { if (!/__recordings__|test-utils/.test(e.name)) files(p, out); } else if (/\.ts$/.test(e.name) && !/\.spec\.ts$|\.d\.ts$/.test(e.name)) out.push(p);
  }
  return out;
}
function mutantsOf(file) {
  const text = fs.readFileSync(file, 'utf8');
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const out = [];
  const add = (node, repl, kind) => { const s = node.getStart(sf); const e = node.getEnd(); if (text.slice(s, e) !== repl) out.push({ file, s, e, repl, kind, line: sf.getLineAndCharacterOfPosition(s).line + 1, was: text.slice(s, e).slice(0, 90) }); };
  const src = (n) => text.slice(n.getStart(sf), n.getEnd());
  const K = ts.SyntaxKind;
  const isType = (n) => ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n);
  const visit = (n) => {
    if (isType(n)) return;
    if (ts.isIfStatement(n)) { add(n.expression, `!(${src(n.expression)})`, 'negate'); add(n.expression, `(${src(n.expression)}) && false`, 'never'); add(n.expression, `(${src(n.expression)}) || true`, 'always'); }
    if (ts.isConditionalExpression(n)) { add(n, `(${src(n.whenTrue)})`, 'cond-true'); add(n, `(${src(n.whenFalse)})`, 'cond-false'); }
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken.kind;
      const sw = { [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===', [K.QuestionQuestionToken]: '||', [K.BarBarToken]: '??', [K.AmpersandAmpersandToken]: '||', [K.PlusToken]: '-', [K.LessThanToken]: '<=', [K.GreaterThanToken]: '>=' }[o];
      if (sw) out.push({ file, s: n.operatorToken.getStart(sf), e: n.operatorToken.getEnd(), repl: sw, kind: 'operator', line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: src(n).slice(0, 90) });
      if ([K.QuestionQuestionToken, K.BarBarToken, K.AmpersandAmpersandToken].includes(o)) { add(n, `(${src(n.left)})`, 'left'); add(n, `(${src(n.right)})`, 'right'); }
      // value !== undefined -> truthiness, and the other way round
      if ([K.ExclamationEqualsEqualsToken].includes(o) && src(n.right) === 'undefined') { add(n, `!!(${src(n.left)})`, 'truthy'); add(n, `(${src(n.left)}) != null`, 'nullish'); }
      if ([K.EqualsEqualsEqualsToken].includes(o) && src(n.right) === 'undefined') { add(n, `!(${src(n.left)})`, 'truthy'); add(n, `(${src(n.left)}) == null`, 'nullish'); }
    }
    if (ts.isExpressionStatement(n)) add(n, ';', 'drop-statement');
    if (ts.isReturnStatement(n) && n.expression && ts.isIfStatement(n.parent.parent ?? n)) add(n, ';', 'drop-return');
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) { if (!ts.isImportDeclaration(n.parent) && n.text) add(n, JSON.stringify(`${n.text}x`), 'string'); }
    if (ts.isTemplateExpression(n)) {
      for (const sp of n.templateSpans) { const e = sp.expression; if (ts.isCallExpression(e) && e.arguments.length === 1) add(e, src(e.arguments[0]), 'unwrap'); add(e, "''", 'empty-span'); add(e, `String(${src(e)}).trim()`, 'trim-span'); add(e, `String(${src(e)}).toLowerCase()`, 'lower-span'); }
    }
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) {
      add(n, '', 'drop-property');
      if (ts.isPropertyAssignment(n)) {
        const v = src(n.initializer);
        const nm = src(n.name);
        if (!ts.isObjectLiteralExpression(n.initializer) && !/^['"`\d]|^(true|false|null)$/.test(v)) {
          add(n, `${nm}: (${v}) || undefined`, 'falsy-dropped');
          add(n, `${nm}: ((${v}) ?? null)`, 'undefined-as-null');
          add(n, `${nm}: ((v: any) => (v === null ? undefined : v))(${v})`, 'null-dropped');
          add(n, `${nm}: ((v: any) => (Array.isArray(v) && v.length === 0 ? undefined : v))(${v})`, 'empty-list-dropped');
          add(n, `${nm}: ((v: any) => (typeof v === 'string' ? v.trim() : v))(${v})`, 'trimmed');
          add(n, `${nm}: ((v: any) => (Array.isArray(v) ? v.slice(0, 50) : v))(${v})`, 'cut-list');
          add(n, `${nm}: ((v: any) => (typeof v === 'string' ? v.normalize('NFC') : v))(${v})`, 'nfc');
          add(n, `${nm}: ((v: any) => (typeof v === 'number' ? String(v) : v))(${v})`, 'number-as-string');
          add(n, `${nm}: ((v: any) => (v && typeof v === 'object' && Object.keys(v).length === 0 ? undefined : v))(${v})`, 'empty-object-dropped');
          add(n, `${nm}: ((v: any) => (typeof v === 'string' && v.length > 5000 ? v.slice(0, 5000) : v))(${v})`, 'long-cut');
        }
      }
    }
    if (ts.isSpreadAssignment(n)) add(n, '', 'drop-spread');
    if (ts.isAwaitExpression(n)) add(n, `(${src(n.expression)})`, 'no-await');
    if (ts.isCallExpression(n)) {
      const t = src(n.expression);
      if (/\.(trim|toLowerCase|map|filter|slice|entries)$/.test(t) && ts.isPropertyAccessExpression(n.expression)) add(n, `(${src(n.expression.expression)})`, 'drop-call');
      if (/^(encodeURIComponent|encodePathSegment|structuredClone)$/.test(t)) add(n, `(${n.arguments[0] ? src(n.arguments[0]) : ''})`, 'unwrap');
      if (n.arguments.length > 1) for (let i = 1; i < n.arguments.length; i++) add(n.arguments[i], 'undefined', 'drop-argument');
      const verb = /^this\.resend\.(post|get|put|patch|delete)$/.exec(t);
      if (verb) { for (const v of ['post', 'put', 'patch', 'delete', 'get']) if (v !== verb[1] && (v === 'post' || v === 'patch')) add(n.expression, `(this.resend as any).${v}`, 'verb'); }
    }
    if (n.kind === K.TrueKeyword) add(n, 'false', 'bool');
    if (n.kind === K.FalseKeyword) add(n, 'true', 'bool');
    if (ts.isNumericLiteral(n)) add(n, String(Number(n.text) + 1), 'number');
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(sf, visit);
  return out;
}

// The methods a file implements.
function focusOf(f) {
  const rel = path.relative(path.join(REPO, 'src'), f);
  const top = rel.split(path.sep)[0];
  if (!rel.includes(path.sep)) return null;
  if (top === 'common') {
    if (/automation/.test(rel)) return '^automations';
    if (/template/.test(rel)) return '^templates';
    if (/domain/.test(rel)) return '^domains';
    if (/contact-prop/.test(rel)) return '^contactProp';
    if (/email/.test(rel)) return '^(emails|batch)\\.(send|create)';
    if (/pagination/.test(rel)) return 'list$';
    return null;
  }
  if (top === 'automation-runs') return '^automations\\.runs';
  if (top === 'segments') return '^(segments|audiences)';
  if (rel.includes('receiving')) return '^emails\\.receiving';
  return `^${top.replace(/-(\w)/g, (_, c) => c.toUpperCase()).replace('oauthGrants', 'oauthGrants')}\\b`;
}
async function bundle(m, outfile) {
  const text = fs.readFileSync(m.file, 'utf8');
  let contents = text.slice(0, m.s) + m.repl + text.slice(m.e);
  if (m.kind === 'drop-property' || m.kind === 'drop-spread') contents = text.slice(0, m.s) + text.slice(m.e).replace(/^\s*,/, '');
  m.text = contents;
  await esbuild.build({
    entryPoints: [path.join(REPO, 'src/index.ts')], bundle: true, format: 'cjs', platform: 'node', target: 'node20',
    external: ['@react-email/render', '@react-email/components', 'react', 'react-dom'], supported: { 'dynamic-import': false }, outfile, logLevel: 'silent', tsconfigRaw: '{}', absWorkingDir: REPO,
    plugins: [{ name: 'mutate', setup(b) { b.onLoad({ filter: /\.ts$/ }, (a) => (a.path === m.file ? { contents, loader: 'ts' } : undefined)); } }],
  });
}

async function evaluate(cfg) {
  const { install } = await import('../sim/core.mjs');
  const { useBundle } = await import('../sim/sdk.mjs');
  const { execute } = await import('../sim/world.mjs');
  const { makePlan } = await import('../sim/plan.mjs');
  const { focusOn } = await import('../sim/common.mjs');
  if (cfg.focus) focusOn.re = new RegExp(cfg.focus);
  install();
  useBundle(cfg.bundle);
  const seen = [];
  for (const id of ORDER) {
    const prop = (await import(`../sim/props/${id}.mjs`)).default;
    for (let i = 0; i < (['C05', 'C18', 'C21'].includes(id) ? cfg.runs / 3 : cfg.runs); i++) {
      let w;
      try { w = await execute(makePlan(prop, 10_000_000 + i), prop); } catch (e) { seen.push({ id, kind: `harness: ${e?.message}` }); break; }
      if (w.violations.length) { seen.push({ id, kind: w.violations[0].kind, seed: i }); break; }
    }
    if (seen.length && !cfg.all) break;
  }
  process.send({ seen }, () => process.exit(0));
}

async function main() {
  const re = new RegExp(flag('file', '.'));
  let list = files(path.join(REPO, 'src')).filter((f) => !/interfaces?(\/|\.ts$)/.test(f.slice(REPO.length)) && re.test(f)).flatMap(mutantsOf);
  const kinds = flag('kinds');
  if (kinds) list = list.filter((m) => new RegExp(kinds).test(m.kind));
  const n = Number(flag('sample', '0'));
  if (n && n < list.length) { let s = 12345; list = list.map((m) => { s = (Math.imul(s, 1103515245) + 12345) >>> 0; return [s, m]; }).sort((a, b) => a[0] - b[0]).slice(0, n).map((x) => x[1]); }
  if (argv.includes('--list')) { const c = {}; for (const m of list) c[m.kind] = (c[m.kind] ?? 0) + 1; console.log(list.length, c); return; }
  const jobs = Number(flag('jobs', '8'));
  const runs = Number(flag('runs', '300'));
  const out = flag('out', '/tmp/mutants.jsonl');
  fs.writeFileSync(out, '');
  const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'mut-'));
  let next = 0;
  let killed = 0;
  let alive = 0;
  let broken = 0;
  const lane = async (j) => {
    while (next < list.length) {
      const m = list[next++];
      const b = path.join(tmp, `${j}.cjs`);
      let r;
      try { await bundle(m, b); } catch { broken++; continue; }
      r = await new Promise((res) => {
        const c = fork(fileURLToPath(import.meta.url), ['--eval', JSON.stringify({ bundle: b, runs: focusOf(m.file) ? runs : runs * 3, focus: focusOf(m.file) })], { stdio: ['ignore', 'ignore', 'ignore', 'ipc'], execArgv: ['--max-old-space-size=1500', '--no-warnings'] });
        let got = null;
        const t = setTimeout(() => c.kill('SIGKILL'), 400_000);
        c.on('message', (x) => { got = x; });
        c.on('exit', () => { clearTimeout(t); res(got ?? { seen: [{ id: '-', kind: 'died or hung' }] }); });
      });
      if (r.seen.length) killed++; else { alive++; }
      fs.appendFileSync(out, `${JSON.stringify({ file: path.relative(REPO, m.file), line: m.line, kind: m.kind, was: m.was, repl: m.repl.slice(0, 160), s: m.s, e: m.e, seen: r.seen })}\n`);
      if ((killed + alive) % 100 === 0) console.log(`${killed + alive}/${list.length}: ${alive} not noticed`);
    }
  };
  await Promise.all(Array.from({ length: jobs }, (_, j) => lane(j)));
  fs.rmSync(tmp, { recursive: true, force: true });
  console.log(`${list.length} mutants: ${killed} noticed, ${alive} not, ${broken} did not compile`);
}
if (argv[0] === '--eval') await evaluate(JSON.parse(argv[1]));
else await main();
