// Raw e-mail generator: byte-exact messages in the charsets and encodings real
// mail uses, together with what each attachment really contains.
import { Rng } from './core.mjs';
import { dnum } from './dict.mjs';

const crlf = '\r\n';
const b64lines = (buf) => buf.toString('base64').replace(/(.{76})/g, '$1\r\n');
function qp(buf) {
  let out = '';
  let line = 0;
  for (const b of buf) {
    let c;
    if (b === 13 || b === 10 || b === 61 || b > 126 || b < 32) c = `=${b.toString(16).toUpperCase().padStart(2, '0')}`;
    else c = String.fromCharCode(b);
    if (line + c.length > 72) { out += '=\r\n'; line = 0; }
    out += c;
    line += c.length;
  }
  return out;
}
const TEXTS = ['Hello there', 'Héllo wörld ñ', 'Line one\r\nLine two\r\n\r\n.leading dot', 'From here on', '', '   ', 'Grüße: ÄÖÜß €', 'x'.repeat(300)];
const LATIN = (s) => Buffer.from(s.replace(/[^\u0000-\u00ff]/g, '?'), 'latin1');

function textPart(r, type, marker) {
  const body = r.pick(TEXTS) + (r.chance(0.8) ? ` ${marker}` : '');
  const html = type === 'text/html' ? `<p>${body}</p>` : body;
  const k = r.int(5);
  const H = (cs, te) => `Content-Type: ${type}; charset=${cs}${crlf}${te ? `Content-Transfer-Encoding: ${te}${crlf}` : ''}${crlf}`;
  if (k === 0) return Buffer.concat([Buffer.from(H('iso-8859-1', '8bit')), LATIN(html)]);
  if (k === 1) return Buffer.from(H('utf-8', 'base64') + b64lines(Buffer.from(html)));
  if (k === 2) return Buffer.from(H('utf-8', 'quoted-printable') + qp(Buffer.from(html)));
  if (k === 3) return Buffer.concat([Buffer.from(H('windows-1252', '8bit')), LATIN(html)]);
  return Buffer.from(H('utf-8', '8bit') + html);
}
function attachment(r, i) {
  const n = r.chance(0.004) ? r.pick([5000, 70_001]) : r.pick([0, 1, 3, 50, 400]);
  let data = Buffer.alloc(n);
  for (let j = 0; j < n; j++) data[j] = r.int(256);
  const inline = r.chance(0.3);
  const name = r.pick([`file${r.chance(0.25) ? 0 : i}.bin`, `report ${i}.pdf`, `a"b.txt`.replace('"', ''), null]);
  const cid = inline || r.chance(0.2) ? r.pick(['cid-', 'cid-', 'Logo.', 'IMG_', 'a+b%40$', 'ii_']) + `${r.chance(0.3) ? 0 : i}` + r.pick(['@example.com', '@example.com', '@01DA.Prod.Outlook.COM', '']) : null;
  // Text sent as a file, in whatever charset its author used. Inline text would
  // be part of the body, and a calendar is decoded to text by the parser.
  const mime = r.chance(0.35) ? r.pick(['text/csv', 'text/plain', 'text/html', 'text/calendar', 'application/json', 'text/x-vcard', 'message/delivery-status']) : r.pick(['application/octet-stream', 'application/pdf', 'image/png']);
  const texty = /^text\/|json/.test(mime);
  if (texty && r.chance(0.7)) data = r.chance(0.5) ? LATIN(`name;city\r\n${r.pick(TEXTS)};São\n`) : Buffer.from(`name,city\n${r.pick(TEXTS)},東京\r\n\r\n`);
  const asFile = !inline || (texty && mime !== 'text/csv') || mime === 'message/delivery-status';
  const charset = texty && r.chance(0.5) ? `; charset=${r.pick(['iso-8859-1', 'utf-8', 'windows-1252'])}` : '';
  const te = r.pick(['base64', 'quoted-printable', 'base64']);
  const head = [`Content-Type: ${mime}${charset}${name ? `; name="${name}"` : ''}`, `Content-Disposition: ${asFile ? 'attachment' : 'inline'}${name ? `; filename="${name}"` : ''}`, `Content-Transfer-Encoding: ${te}`];
  if (cid) head.push(`Content-ID: <${cid}>`);
  const part = Buffer.from(`${head.join(crlf)}${crlf}${crlf}${te === 'base64' ? b64lines(data) : qp(data)}`);
  return { part, truth: { mime, data: data.toString('base64'), cid, name, qp: te !== 'base64' } };
}
function multi(kind, parts, bnd) {
  const out = [Buffer.from(`Content-Type: multipart/${kind}; boundary="${bnd}"${crlf}${crlf}`)];
  for (const p of parts) out.push(Buffer.from(`--${bnd}${crlf}`), p, Buffer.from(crlf));
  out.push(Buffer.from(`--${bnd}--${crlf}`));
  return Buffer.concat(out);
}

export function rawEmail(...label) {
  const r = new Rng(...label);
  const marker = `mk-${r.u32().toString(36)}`;
  const k = r.int(12);
  if (k === 0) {
    // Not really e-mail: arbitrary bytes.
    const n = r.pick([0, 10, 2000]);
    const b = Buffer.alloc(n);
    for (let i = 0; i < n; i++) b[i] = r.int(256);
    return { bytes: b, truth: null, marker };
  }
  const head = [`From: Sender ${r.int(9)} <s@example.com>`, 'To: me@inbound.example', `Subject: =?utf-8?B?${Buffer.from(`Ünï ${marker}`).toString('base64')}?=`, `Message-ID: <${marker}@example.com>`, 'Date: Mon, 01 Jun 2026 10:00:00 +0000', 'MIME-Version: 1.0'].join(crlf) + crlf;
  if (k === 1) {
    // Nested deeper than any parser accepts.
    let s = '';
    for (let i = 0; i < 300; i++) s += `Content-Type: multipart/mixed; boundary="n${i}"${crlf}${crlf}--n${i}${crlf}`;
    return { bytes: Buffer.from(`${head}${s}Content-Type: text/plain${crlf}${crlf}deep`), truth: null, marker };
  }
  const texts = [];
  if (r.chance(0.8)) texts.push(textPart(r, 'text/plain', marker));
  if (r.chance(0.7)) texts.push(textPart(r, 'text/html', marker));
  const atts = Array.from({ length: r.chance(0.02) ? (dnum(r, 0.5, 1, 60) ?? r.pick([12, 26, 40])) : r.pick([0, 0, 1, 2, 4]) }, (_, i) => attachment(r, i));
  let body;
  if (!atts.length && texts.length === 1) body = texts[0];
  else {
    const parts = [];
    if (texts.length > 1) parts.push(multi('alternative', texts, 'alt0'));
    else parts.push(...texts);
    parts.push(...atts.map((a) => a.part));
    body = parts.length ? multi('mixed', parts, 'mix0') : Buffer.from(`Content-Type: text/plain${crlf}${crlf}`);
  }
  if (r.chance(0.15)) for (let i = 0, n = 1 + r.int(6); i < n; i++) body = multi(r.pick(['mixed', 'related', 'mixed']), [body], `wrap${i}`);
  // Real mail carries many kilobytes of trace headers.
  const trace = r.chance(0.12) ? Array.from({ length: r.pick([10, 120, 700]) }, (_, i) => `X-Trace-${i}: ${'t'.repeat(r.pick([20, 90]))}${r.chance(0.3) ? `${crlf}\t${'f'.repeat(60)}` : ''}${crlf}`).join('') : '';
  let bytes = Buffer.concat([Buffer.from(trace), Buffer.from(head), body]);
  if (k === 2) bytes = Buffer.concat([Buffer.from([0xef, 0xbb, 0xbf]), bytes]);
  if (k === 3) bytes = Buffer.from(bytes.toString('latin1').replace(/\r\n/g, '\n'), 'latin1');
  return { bytes, truth: k === 2 || k === 3 || atts.some((a) => ['text/calendar', 'message/delivery-status'].includes(a.truth.mime)) ? null : atts.map((a) => a.truth), marker };
}
