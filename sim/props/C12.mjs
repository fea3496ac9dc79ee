// Webhook verification.
import crypto from 'node:crypto';
import { epoch, Rng } from '../common.mjs';
import { canon, Gen, short } from '../gen.mjs';
import { dnum, dstr, PRINTABLE } from '../dict.mjs';

const TOL = 300;
const EVENTS = ['email.sent', 'email.bounced', 'email.received', 'contact.created', 'domain.updated'];
const sign = (keyB64, id, ts, body) => crypto.createHmac('sha256', Buffer.from(keyB64, 'base64')).update(`${id}.${ts}.${body}`).digest('base64');
const TAMPER = ['body', 'bodySpace', 'id', 'ts', 'tsWord', 'sig', 'sigTrunc', 'sigVersion', 'sigPlain', 'noSig', 'noId', 'noTs', 'wrongSecret', 'otherDelivery', 'emptySig', 'case', 'sigOfEmptyKey', 'swapIdTs', 'notJson', 'prefix', 'suffix', 'tsForm', 'tsFormSigned', 'bodyCase', 'sigJoined', 'wrongAlgorithm', 'signedParts', 'idInsert', 'idInsert', 'idCase', 'bodyInsert'];

export default {
  id: 'C12',
  runs: { quick: 16000 },
  nontrivialRule: 'a delivery was tampered with, delayed, repeated or signed by a skewed clock',
  gen(r) {
    const g = new Gen(r, { wild: 0.6 });
    const b64 = (n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = r.int(256); return b.toString('base64'); };
    const secrets = Array.from({ length: 1 + r.int(3) }, () => b64(r.pick([24, 32, 1, 16, 64, 100])));
    const tasks = [];
    for (let t = 0, n = 1 + r.int(3); t < n; t++) {
      const steps = [];
      for (let s = 0, k = 1 + r.int(8); s < k; s++) {
        const body = { type: r.pick(EVENTS), created_at: '2026-01-01T00:00:00Z', data: g.json(3) };
        const st = {
          hook: r.int(secrets.length), id: dstr(r, 0.3, (x) => PRINTABLE.test(x)) ?? r.weighted([[`msg_${g.hex(r.pick([1, 8, 27]))}`, 6], [`${g.hex(4)}.${g.hex(4)}`, 1], [g.uuid(), 1], [`msg ${g.hex(3)}/é:${g.hex(2)}`, 1], [g.hex(1), 0.5], [`MSG_${g.hex(3)}.`, 0.5]]), body: JSON.stringify(body, null, r.pick([0, 0, 2])),
          tamper: r.chance(0.5) ? 'none' : r.pick(TAMPER), skew: dnum(r, 0.3, -1e7, 1e7) ?? r.weighted([[0, 4], [r.pick([-299, -300, -301, 299, 300, 301, -302, 302]), 4], [r.pick([-86400, 86400, -5, 5, -3600]), 1]]),
          // the wait before delivery, in ms; exact seconds keep boundaries exact
          delay: r.weighted([[0, 4], [r.int(1000), 2], [r.pick([1000, 60_000, 299_000, 300_000, 301_000, 300_999]), 3]]), copies: r.weighted([[1, 6], [2, 2], [3, 1]]), gap: r.pick([0, 1, 1000, 150_000, 300_000, 400_000]),
          extra: r.weighted([['', 5], ['v1,AAAA', 2], ['v2,zzz', 1], ['v1a,abc', 1], ['old', 2], ['dup', 1], ['v1,', 1], ['garbage', 1], ['many', 0.5]]), front: r.chance(0.5), prefix: r.chance(0.6), client: r.int(2), alt: r.u32(),
        };
        if (r.chance(0.3)) st.wait = r.pick([1, 250, 1000, 60_000]);
        if (r.chance(0.1)) steps.push({ jump: r.pick([-3_600_000, -301_000, -1000, 500, 1000, 301_000, 3_600_000]) });
        if (r.chance(0.5)) st.bg = true;
        steps.push(st);
      }
      tasks.push({ id: t, start: r.int(2000), steps });
    }
    return { config: { epoch: epoch(r), net: {}, env: { NODE_ENV: 'test' }, secrets }, clients: [{ key: 're_a' }, { key: 're_b', mod: 1 }], tasks };
  },
  async step(w, t, s, i) {
    const { sim } = w;
    const secret = w.plan.config.secrets[s.hook];
    // The sender signs with its own clock.
    const ts = Math.floor(sim.now / 1000) + s.skew;
    const good = `v1,${sign(secret, s.id, ts, s.body)}`;
    const m = { id: s.id, timestamp: String(ts), signature: good, body: s.body, secret };
    if (s.extra === 'old') addSig(m, s, `v1,${sign(Buffer.from(`old${s.alt}`).toString('base64'), s.id, ts, s.body)}`);
    else if (s.extra === 'dup') addSig(m, s, good);
    else if (s.extra === 'many') addSig(m, s, Array.from({ length: 40 }, (_, n) => `v1,${sign(Buffer.from(`${n}${s.alt}`).toString('base64'), s.id, ts, s.body)}`).join(' '));
    else if (s.extra) addSig(m, s, s.extra);
    const prev = (w.sent ??= [])[s.alt % Math.max(1, w.sent.length)] ?? null;
    w.sent.push({ ...m });
    tamper(m, s, ts, prev);
    if (s.tamper !== 'none') sim.count(`tamper:${s.tamper}`);
    if (s.skew) sim.count('senderClockSkew');
    if (s.delay) sim.count('deliveryDelayed');
    w.nontrivial = true;
    if (s.delay) await w.sleep(s.delay);
    for (let c = 0; c < s.copies; c++) {
      if (c) { sim.count('deliveryRepeated'); if (s.gap) await w.sleep(s.gap); }
      receive(w, t, s, m, i, c);
    }
  },
  check(w) {
    if (w.net.exchanges.length) w.fail('network-use', `verification made ${w.net.exchanges.length} requests`);
  },
};
function addSig(m, s, x) { m.signature = s.front ? `${x} ${m.signature}` : `${m.signature} ${x}`; }
function tamper(m, s, ts, prev) {
  const r = new Rng(s.alt, 'tamper');
  const flip = (x) => { const i = r.int(Math.max(1, x.length)); return x.length ? x.slice(0, i) + (x[i] === 'A' ? 'B' : 'A') + x.slice(i + 1) : 'A'; };
  const mapSig = (f) => { m.signature = m.signature.split(' ').map((p) => (p.startsWith('v1,') ? `v1,${f(p.slice(3))}` : p)).join(' '); };
  switch (s.tamper) {
    case 'body': m.body = m.body.includes('"type"') ? m.body.replace('"type"', '"typE"') : flip(m.body); break;
    case 'bodySpace': m.body = r.chance(0.5) ? `${m.body} ` : ` ${m.body}`; break;
    case 'id': m.id = flip(m.id); break;
    case 'idInsert': { const i = r.int(m.id.length + 1); m.id = m.id.slice(0, i) + r.pick([' ', '.', '\t', '\n', '-', '_', '\u00a0', ',', '0', 'v1']) + m.id.slice(i); break; }
    case 'idCase': m.id = m.id.toUpperCase() === m.id ? m.id.toLowerCase() : m.id.toUpperCase(); break;
    case 'bodyInsert': { const i = r.pick([0, m.body.length, m.body.indexOf(':') + 1]); m.body = m.body.slice(0, i) + r.pick([' ', '\n', '\r\n', '\t', '\ufeff']) + m.body.slice(i); break; }
    case 'ts': m.timestamp = String(ts + r.pick([1, -1, 30, 300])); break;
    case 'tsWord': m.timestamp = r.pick(['now', 'NaN', '-', 'abc', ' ']); break;
    case 'sig': mapSig((x) => flip(x)); break;
    case 'sigTrunc': mapSig((x) => x.slice(0, r.pick([0, 1, 10, 42]))); break;
    case 'sigVersion': m.signature = m.signature.replaceAll('v1,', r.pick(['v2,', 'v1a,', 'V1,', 'v0,'])); break;
    case 'sigPlain': m.signature = m.signature.replaceAll('v1,', ''); break;
    case 'noSig': m.signature = r.pick([undefined, '']); break;
    case 'emptySig': m.signature = r.pick(['v1,', ',', 'v1', 'v1,=', 'v1,undefined']); break;
    case 'noId': m.id = r.pick([undefined, '']); break;
    case 'noTs': m.timestamp = r.pick([undefined, '']); break;
    case 'wrongSecret': m.secret = Buffer.from(`wrong${s.alt}`).toString('base64'); break;
    case 'otherDelivery': if (prev) m.signature = prev.signature; else mapSig(flip); break;
    case 'case': mapSig((x) => (x.toLowerCase() === x ? x.toUpperCase() : x.toLowerCase())); break;
    case 'sigOfEmptyKey': m.signature = `v1,${sign('', m.id, m.timestamp, m.body)}`; break;
    case 'swapIdTs': { const id = m.id; m.id = m.timestamp; m.timestamp = id; break; }
    case 'notJson': m.body = m.body.slice(0, -1); m.signature = `v1,${sign(m.secret, m.id, ts, m.body)}`; break;
    // A readable but different timestamp, or one out of any window, signed as it is.
    case 'tsForm': m.timestamp = weirdTs(ts, r); break;
    case 'tsFormSigned': m.timestamp = weirdTs(ts, r); m.signature = `v1,${sign(m.secret, m.id, m.timestamp, m.body)}`; break;
    case 'bodyCase': m.body = m.body.toUpperCase(); break;
    case 'sigJoined': m.signature = m.signature.replaceAll(' ', r.pick([';', '|'])) + (m.signature.includes(' ') ? '' : ';x'); break;
    case 'wrongAlgorithm': m.signature = `v1,${crypto.createHmac(r.pick(['sha1', 'sha512', 'md5']), Buffer.from(m.secret, 'base64')).update(`${m.id}.${ts}.${m.body}`).digest('base64')}`; break;
    case 'signedParts': { const mac = (x) => crypto.createHmac('sha256', Buffer.from(m.secret, 'base64')).update(x).digest('base64'); m.signature = `v1,${mac(r.pick([m.body, `${m.id}.${m.body}`, `${ts}.${m.body}`, `${m.id}.${ts}`, `${m.id}${ts}${m.body}`, `${ts}.${m.id}.${m.body}`, `${m.id}.${ts}.`]))}`; break; }
    case 'prefix': mapSig((x) => x.slice(0, -4)); break;
    case 'suffix': mapSig((x) => `${x}AAAA`); break;
  }
}
const weirdTs = (ts, r) => r.pick([`${ts}000`, `${ts}${r.int(1000)}`.padEnd(13, '7'), `-${ts}`, String(ts * 10), '99999999999', '0', '1', '-1', String(ts).slice(0, -1), '253402300800', String(ts + 2 ** 32), String(2 ** 31)]);
function receive(w, t, s, m, i, c) {
  const { sim } = w;
  const now = Math.floor((sim.now + sim.skew) / 1000);
  // Reference: exact match of one v1 signature over id.timestamp.body, and a
  // timestamp no further than the tolerance from the receiver's clock.
  const tsN = /^-?\d+$/.test(m.timestamp ?? '') ? Number(m.timestamp) : null;
  const present = !!m.id && !!m.timestamp && !!m.signature;
  const inTime = tsN !== null && Math.abs(now - tsN) <= TOL;
  let want = null;
  if (present && inTime) {
    const exp = sign(m.secret, m.id, tsN, m.body);
    if (m.signature.split(' ').some((p) => p === `v1,${exp}`)) try { want = { v: JSON.parse(m.body) }; } catch { want = null; }
  }
  const rec = w.clients[s.client];
  let got = null;
  let err = null;
  const input = { payload: m.body, headers: { id: m.id, timestamp: m.timestamp, signature: m.signature }, webhookSecret: s.prefix ? `whsec_${m.secret}` : m.secret };
  const before = canon(input);
  try {
    const v = rec.client.webhooks.verify(input);
    if (v !== null && typeof v === 'object' && typeof v.then === 'function') { w.fail('not-synchronous', 'verify returned a promise'); return; }
    got = { v };
  } catch (e) {
    err = e;
  }
  sim.note(`verify t${t.id}s${i}c${c} ${got ? 'ok' : 'threw'}`, `${got ? 'V' : 'v'}${t.id}`);
  sim.probe(want ? 'accepted' : 'refused');
  const what = `${s.tamper} delivery, signed ${tsN === null ? m.timestamp : now - tsN} s before the receiver's clock, signatures ${short(m.signature, 120)}`;
  if (got && !want) w.fail('forgery-accepted', `accepted a delivery it must refuse: ${what}`);
  else if (!got && want) w.fail('genuine-refused', `refused a genuine delivery (${err?.message}): ${what}`);
  else if (got && canon(got.v) !== canon(want.v)) w.fail('wrong-payload', `returned ${short(got.v)} instead of ${short(want.v)}`);
  else if (!got && !(err instanceof Error)) w.fail('not-an-error', `threw ${short(err)}`);
  if (canon(input) !== before) w.fail('argument-modified', 'verify changed its arguments');
}
