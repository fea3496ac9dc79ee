// Forwarding a received email: right steps, right message, right result.
import { createRequire } from 'node:module';
import path from 'node:path';
import { callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { EchoServer, rawHosts, splitUrl, successBody } from '../server.mjs';
import { compareOutcome, outcome, diff } from '../oracle.mjs';
import { canon, decode, sameJson, short, viaJson } from '../gen.mjs';
import { Rng } from '../core.mjs';
import { rawEmail } from '../mime.mjs';
import { REPO } from '../sdk.mjs';
import { dstr } from '../dict.mjs';

let PostalMime = null;
export async function postal() {
  if (!PostalMime) {
    const req = createRequire(path.join(REPO, 'package.json'));
    const m = req('postal-mime');
    PostalMime = m.default ?? m;
  }
  return PostalMime;
}
const SUBJECTS = ['Hello', '', null, undefined, 'Fwd: hello', 'fwd: lower', 'Re: Fwd: x', 'Fwd:', 'FWD: UP', ' Fwd: lead', '東京 🚀', 'x'.repeat(900), '0', ' ', ' padded ', 'y'.repeat(1100), 'é'.repeat(4000), 'two\nlines', 'Fwd: Fwd: twice', 'Fwd:tight', '=?UTF-8?Q?caf=C3=A9?=', 'tab\there', '<b>&amp;</b>'];
export class ForwardServer extends EchoServer {
  constructor(sim, base) {
    super(sim, {
      base,
      body: (ex, s, kind, mark, r) => {
        if (kind !== 'recv') return null;
        const b = successBody('recv', mark, r, r.pick([...rawHosts(base(ex)), 'https://inbound-cdn.resend.com:8443']), s.segs.at(-1));
        b.subject = dstr(r, 0.3) ?? r.pick(SUBJECTS);
        if (b.subject === undefined) delete b.subject;
        if (b.raw) b.raw.download_url = b.raw.download_url.replace('?sig=1', r.pick(['?sig=1', '?X-Amz-Signature=a%2Fb%3D&e=3600+1', '', '?a=%F0%9F%9A%80']));
        const k = r.int(20);
        if (k === 0) b.raw = null;
        if (k === 1) delete b.raw;
        if (k === 2) b.raw = { download_url: '', expires_at: '' };
        return b;
      },
      foreign: (ex) => {
        if (!ex.url.includes('/raw/')) return { status: 404, headers: {}, body: 'no such host' };
        const m = rawEmail(sim.seed, ex.url);
        ex.truth = m.truth;
        ex.marker = m.marker;
        // Any success will do, and any label on the bytes.
        const r = new Rng(sim.seed, 'rawStatus', ex.url);
        return { status: r.weighted([[200, 8], [203, 1], [206, 0.5], [201, 0.5]]), raw: true, headers: { 'content-type': r.weighted([['message/rfc822', 5], ['binary/octet-stream', 1], ['text/plain; charset=iso-8859-1', 1], ['application/octet-stream', 1]]) }, body: m.bytes };
      },
    });
  }
}

export default {
  id: 'C10',
  runs: { quick: 10000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.15, 0.5]) });
    return { config: { epoch: epoch(r), net, env: { NODE_ENV: r.pick(['test', 'production']) } }, clients, tasks: callTasks(r, { names: r.chance(0.8) ? ['emails.receiving.forward'] : ['emails.receiving.forward', 'emails.receiving.forward', 'emails.send', 'emails.receiving.get'], clients: clients.length, gen: { wild: r.pick([0.1, 0.6]), invalid: 0, opts: r.pick([0.2, 0.7]) } }) };
  },
  server: (w) => new ForwardServer(w.sim, (ex) => ex.op?.clientRec?.base ?? 'https://api.resend.com'),
  async finish(w) {
    await parseAll(w);
  },
  check(w) {
    for (const op of w.ops) {
      if (op.spec.composite !== 'forward') continue;
      for (const [k, m] of forwardCheck(op, { results: true, probe: (p) => w.sim.probe(p) })) w.fail(k, `forward: ${m}`, op);
    }
  },
};
// What each downloaded message parses to, by the reference parser.
export async function parseAll(w) {
  const pm = await postal();
  for (const ex of w.net.exchanges) {
    if (ex.op?.spec?.composite !== 'forward' || ex.op.exchanges.indexOf(ex) !== 1) continue;
    const d = ex.delivered;
    if (!d || d.rejected || !d.ok || d.bodyError) continue;
    try {
      ex.parsed = await pm.parse(new Uint8Array(d.bytes).buffer, { attachmentEncoding: 'base64' });
    } catch (e) {
      ex.parseError = e;
    }
  }
}
const appError = (op, status, what) => {
  const v = op.value;
  const bad = [];
  if (op.status === 'pending') return bad;
  if (op.status !== 'resolved' || v === null || typeof v !== 'object') return [['not-resolved', `${op.status} with ${short(String(op.value?.stack ?? op.value))} after ${what}`]];
  if (v.data !== null || v.error === null || typeof v.error !== 'object') return [['failure-reported-as-success', `data ${short(v.data)} error ${short(v.error)} after ${what}`]];
  if (v.error.name !== 'application_error' || v.error.statusCode !== status || typeof v.error.message !== 'string' || !v.error.message) bad.push(['wrong-error', `${short(v.error)} after ${what} (status ${status})`]);
  return bad;
};

// Follows the call step by step. Without `results`, judges only the requests.
export function forwardCheck(op, { results, probe = () => {} }) {
  const bad = [];
  const [o, ro] = decode(op.enc);
  const x = op.exchanges;
  const base = op.clientRec.base;
  if (!x.length) return [['missing-request', 'no request was made']];
  const s0 = splitUrl(x[0].url, base);
  if (x[0].method !== 'GET' || !s0 || canon(s0.segs) !== canon(['emails', 'receiving', o.emailId])) bad.push(['wrong-address', `fetched ${x[0].method} ${x[0].url} instead of the received email ${o.emailId}`]);
  const keyed = (ex) => ex.headers['idempotency-key'] !== undefined;
  if (keyed(x[0])) bad.push(['key-on-read', 'the idempotency key was sent with the read']);
  const r0 = outcome(x[0]);
  const stop = (n, why) => { if (x.length > n) bad.push(['step-after-failure', `went on to ${x[n].method} ${x[n].url} although ${why}`]); };
  if (r0.kind !== 'data') {
    stop(1, 'the received email could not be read');
    probe('email-unreadable');
    if (results) bad.push(...compareOutcome(op, x[0]));
    return bad;
  }
  const email = r0.data;
  if (!email || typeof email !== 'object') return bad;
  if (!email.raw?.download_url) {
    stop(1, 'there is no raw message');
    probe('no-raw-message');
    if (results && op.status !== 'pending' && !(op.status === 'resolved' && op.value?.data === null && op.value?.error?.name === 'validation_error')) bad.push(['wrong-error', `${op.status} ${short(op.value)} although the raw message is not available`]);
    return bad;
  }
  const x1 = x[1];
  if (!x1) return [...bad, ['missing-request', 'the raw message was never downloaded']];
  if (x1.method !== 'GET' || x1.url !== new URL(email.raw.download_url).href) bad.push(['wrong-address', `downloaded ${x1.method} ${x1.url} instead of ${email.raw.download_url}`]);
  if (x1.headers.authorization !== undefined) bad.push(['key-leaked', 'the download carried the API key']);
  if (keyed(x1)) bad.push(['key-on-read', 'the idempotency key was sent with the download']);
  const d1 = x1.delivered;
  if (!d1) return bad;
  if (d1.rejected || d1.bodyError || !d1.ok) {
    stop(2, 'the download failed');
    probe('download-failed');
    if (!results) return bad;
    const status = d1.rejected || (d1.ok && d1.bodyError) ? null : d1.status;
    return [...bad, ...appError(op, status, 'a failed download')];
  }
  if (results && o.passthrough !== false && x1.parseError) {
    stop(2, 'the message could not be parsed');
    probe('unparsable');
    return [...bad, ...appError(op, null, 'an unparsable message')];
  }
  const x2 = x[2];
  if (!x2) {
    if (!results && o.passthrough !== false) return bad; // may have been unparsable
    return [...bad, ['missing-request', 'the message was never sent']];
  }
  if (x.length > 3) bad.push(['extra-request', `${x.length} requests`]);
  const s2 = splitUrl(x2.url, base);
  if (x2.method !== 'POST' || !s2 || canon(s2.segs) !== canon(['emails'])) bad.push(['wrong-address', `sent with ${x2.method} ${x2.url}`]);
  if (x2.tSend < x1.tDone) bad.push(['step-before-end', 'sent before the download had ended']);
  if (ro?.idempotencyKey ? x2.headers['idempotency-key'] !== ro.idempotencyKey : !headerOption(ro) && keyed(x2)) bad.push(['idempotency-key', `sent with idempotency key ${x2.headers['idempotency-key']} instead of ${ro?.idempotencyKey}`]);
  let body;
  try { body = JSON.parse(x2.body.text); } catch { return [...bad, ['body-not-json', short(x2.body)]]; }
  const subject = email.subject || '(no subject)';
  let want;
  if (o.passthrough === false) {
    want = { from: o.from, to: o.to, subject: subject.startsWith('Fwd:') ? subject : `Fwd: ${subject}`, text: o.text, html: o.html };
    const at = body.attachments;
    if (!Array.isArray(at) || at.length !== 1) bad.push(['wrong-attachments', `${at?.length} attachments on a wrapped forward`]);
    else {
      if (!Buffer.from(String(at[0].content), 'base64').equals(Buffer.from(d1.bytes))) bad.push(['bytes-changed', `the attached original differs from the ${d1.bytes.length} bytes downloaded`]);
      if (at[0].content_type !== 'message/rfc822') bad.push(['wrong-attachments', `original attached as ${at[0].content_type}`]);
      if (typeof at[0].filename !== 'string' || !/\.eml$/.test(at[0].filename)) bad.push(['wrong-attachments', `original attached under the name ${at[0].filename}`]);
    }
    probe('wrapped');
  } else {
    want = { from: o.from, to: o.to, subject };
    if (x1.parsed) { want.text = x1.parsed.text || undefined; want.html = x1.parsed.html || undefined; }
    else if (!results) { delete body.text; delete body.html; }
    const at = body.attachments ?? [];
    if (x1.parsed) {
      const ref = x1.parsed.attachments.map((a) => ({ filename: a.filename, content: String(a.content), content_type: a.mimeType, content_id: (a.contentId ?? '').replace(/^<|>$/g, '') || undefined }));
      const norm = (l) => viaJson(l.map((a) => ({ ...a, filename: a.filename ?? null })));
      if (!sameJson(norm(at), norm(ref))) bad.push(['wrong-attachments', `attachments ${diff(norm(at), norm(ref))}`]);
    }
    if (x1.truth && Buffer.from(x1.response.body).equals(Buffer.from(d1.bytes))) {
      // postal-mime keeps the line break that ends a quoted-printable part.
      const bytes = (a, i) => {
        let b = Buffer.from(String(a.content), 'base64');
        const t = x1.truth[i];
        if (t?.qp && b.length === Buffer.from(t.data, 'base64').length + 1 && b[b.length - 1] === 10) b = b.subarray(0, -1);
        return b.toString('base64');
      };
      const got = at.map((a, i) => `${a.content_type}|${bytes(a, i)}|${a.content_id ?? ''}`);
      const exp = x1.truth.map((a) => `${a.mime}|${a.data}|${a.cid ?? ''}`);
      if (canon(got) !== canon(exp)) bad.push(['bytes-changed', `attachments sent differ from the original message: ${short(got)} instead of ${short(exp)}`]);
    }
    probe('passthrough');
  }
  const { attachments, ...rest } = body;
  if (!sameJson(rest, viaJson(want))) bad.push(['wrong-message', `message ${diff(rest, viaJson(want))}`]);
  if (results && x2.delivered) bad.push(...compareOutcome(op, x2));
  return bad;
}
function headerOption(ro) {
  if (!ro?.headers) return false;
  return new Headers(ro.headers).has('idempotency-key');
}
