// The public surface of the SDK, one entry per method: how to generate a call
// and which request the documentation says that call stands for. This is the
// reference the checks compare real requests with; it is written from the
// API documentation and the public option types, not from the implementation.
import { dnum, dstr, PRINTABLE } from './dict.mjs';

const U = undefined;
const E = {};
// kind: shape of the success body the simulated server answers with.
function def(name, gen, req, x = {}) {
  E[name] = { name, gen, req, kind: 'obj', path: name.split('.'), ...x };
}
const at = (args, i) => (i === U ? U : args[i]);
export const API = E;

// ---- generic pieces of expected requests
const page = (o = {}) => {
  const q = [];
  if (o.limit !== U) q.push(['limit', String(o.limit)]);
  if (o.after !== U) q.push(['after', o.after]);
  if (o.before !== U) q.push(['before', o.before]);
  return q;
};
const GET = (segs, q = []) => ({ method: 'GET', segs, q });
const DEL = (segs, body) => ({ method: 'DELETE', segs, q: [], body });
const POST = (segs, body) => ({ method: 'POST', segs, q: [], body });
const PATCH = (segs, body) => ({ method: 'PATCH', segs, q: [], body });
const local = (name) => ({ local: name });
const htmlOf = (o) => (o.react ? o.react.props.sim.html : o.html);
const buf = (c) => c;

const emailBody = (e) => ({
  attachments: e.attachments?.map((a) => ({ content: buf(a.content), filename: a.filename, path: a.path, content_type: a.contentType, content_id: a.contentId })),
  bcc: e.bcc, cc: e.cc, from: e.from, headers: e.headers, html: htmlOf(e), reply_to: e.replyTo,
  scheduled_at: e.scheduledAt, subject: e.subject, tags: e.tags, text: e.text, to: e.to,
  template: e.template ? { id: e.template.id, variables: e.template.variables } : U,
  topic_id: e.topicId,
});
const genEmail = (g, { batch = false } = {}) => {
  const o = g.obj({
    from: () => g.chance(0.3) ? `${g.text()} <${g.email()}>` : g.addr(),
    to: () => g.to(),
    subject: () => g.text(),
    '?bcc': () => g.to(), '?cc': () => g.to(), '?replyTo': () => g.to(),
    '?headers': () => (g.chance(0.1) ? {} : g.chance(0.05) ? Object.fromEntries([[g.key(), g.text()], ['X-Last', 'x']]) : g.obj({ '?X-Entity-Ref-ID': () => g.text(), '?List-Unsubscribe': () => '<https://example.com/u>', '?In-Reply-To': () => `<${g.hex(6)}@x>`, '?x-lower': () => g.text(), '?Reply-To': () => g.email() }, 0.6)),
    '?tags': () => g.list(() => ({ name: g.text(), value: g.text() })),
    '?topicId': () => (g.chance(0.3) ? null : g.bodyId()),
    '?scheduledAt': () => g.date(),
    ...(batch ? {} : {
      '?attachments': () => g.list(() => g.obj({
        '?content': () => g.chance(0.01) ? { $: 'buf', n: dnum(g.r, 0.3, 1, 300_000) ?? g.pick([5000, 66_000, 140_001]), hex: g.hex(14) } : g.pick([() => ({ $: 'buf', b64: Buffer.from(g.hex(2 * (dnum(g.r, 0.1, 0, 4000) ?? g.int(0, g.chance(0.1) ? 3000 : 20))), 'hex').toString('base64') }), () => g.hex(8), () => ''])(),
        '?filename': () => (g.chance(0.1) ? false : g.text()),
        '?path': () => `https://files.example.com/${g.hex(4)}?a=b`,
        '?contentType': () => g.oneOf(['text/plain', 'application/pdf', 'text/calendar; method=REQUEST']),
        '?contentId': () => g.text(),
      }, 0.6)),
    }),
  }, 0.3);
  const k = g.int(0, 9);
  if (k === 0) {
    o.template = { id: g.bodyId(), variables: Object.fromEntries(g.list(() => [g.key('NAME', 'count', 'é', 'x y'), g.pick([0, '', 'v', 12.5, g.text(), null, { $: 'undef' }])])) };
    if (g.chance(0.3)) delete o.template.variables;
  } else {
    if (g.chance(g.react)) o.react = g.reactNode();
    if (!o.react || g.chance(0.3)) o.html = g.chance(0.1) ? '' : `<p>${g.text()}</p>`;
    if (g.chance(0.4)) o.text = g.text();
  }
  return o;
};

// ---------------------------------------------------------------- emails
const two = (a, o) => (o === U ? [a] : [a, o]);
for (const n of ['send', 'create'])
  def(`emails.${n}`, (g) => two(genEmail(g), g.reqOpts({ idem: true })), ([e]) => POST(['emails'], emailBody(e)), { optsAt: 1, idem: true, reactAt: (a) => [a[0].react] });
def('emails.get', (g) => [g.id()], ([id]) => GET(['emails', id]));
def('emails.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['emails'], page(o)), { kind: 'list' });
def('emails.update', (g) => [{ id: g.id(), scheduledAt: g.date() }], ([o]) => PATCH(['emails', o.id], { scheduled_at: o.scheduledAt }));
def('emails.cancel', (g) => [g.id()], ([id]) => POST(['emails', id, 'cancel']));
def('emails.share', (g) => two(g.id(), g.chance(0.5) ? g.obj({ '?expiresIn': () => g.date() }) : U), ([id, o]) => POST(['emails', id, 'share'], { expires_in: o?.expiresIn }));
const join = (x) => (x === U ? U : x.join(','));
def('emails.metrics', (g) => (g.chance(0.2) ? [] : [g.obj({
  '?startDate': () => g.pick(['2026-01-01', '2026-01-01T00:00:00+02:00', '24h', g.text()]), '?endDate': () => g.pick(['2026-02-01', '2026-02-01T00:00:00.000+05:30', g.text()]), '?timezone': () => g.pick(['Europe/Madrid', 'America/New_York', 'Etc/GMT+8', g.text()]),
  '?granularity': () => g.oneOf(['hourly', 'daily', 'weekly', 'monthly']),
  '?metrics': () => g.r.sample(['received', 'delivered', 'opened', 'bounced_transient', 'delivery_rate', 'unique_clicked'], g.int(0, 4)),
  '?dimensions': () => g.r.sample(['period', 'domain'], g.int(0, 2)),
  '?domainId': () => g.list(() => g.bodyId()), ...(g.bool() ? { '?emailId': () => g.list(() => g.bodyId()) } : { '?broadcastId': () => g.list(() => g.bodyId()) }),
})]), ([o = {}]) => GET(['emails', 'metrics'], [
  ['start_date', o.startDate], ['end_date', o.endDate], ['timezone', o.timezone], ['granularity', o.granularity], ['metrics', join(o.metrics)],
  ['dimensions', join(o.dimensions)], ['domain_id', join(o.domainId)], ['email_id', join(o.emailId)], ['broadcast_id', join(o.broadcastId)],
].filter(([, v]) => v !== U && v !== '')), { filters: true });
def('emails.attachments.get', (g) => [{ emailId: g.id(), id: g.id() }], ([o]) => GET(['emails', o.emailId, 'attachments', o.id]));
def('emails.attachments.list', (g) => [{ emailId: g.id(), ...g.page() }], ([o]) => GET(['emails', o.emailId, 'attachments'], page(o)), { kind: 'list' });
def('emails.receiving.get', (g) => two(g.id(), g.chance(0.5) ? g.obj({ '?html_format': () => g.oneOf(['cid', 'data_uri']) }) : U), ([id, o]) => GET(['emails', 'receiving', id], o?.html_format !== U ? [['html_format', o.html_format]] : []), { kind: 'recv', filters: true });
def('emails.receiving.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['emails', 'receiving'], page(o)), { kind: 'list' });
def('emails.receiving.attachments.get', (g) => [{ emailId: g.id(), id: g.id() }], ([o]) => GET(['emails', 'receiving', o.emailId, 'attachments', o.id]));
def('emails.receiving.attachments.list', (g) => [{ emailId: g.id(), ...g.page() }], ([o]) => GET(['emails', 'receiving', o.emailId, 'attachments'], page(o)), { kind: 'list' });
def('emails.receiving.forward', (g) => {
  const pass = g.bool();
  const o = { emailId: g.id(), to: g.to(), from: g.addr() };
  if (!pass) {
    o.passthrough = false;
    if (g.chance(0.7)) o.text = g.text();
    if (o.text === U || g.bool()) o.html = `<p>${g.text()}</p>`;
  } else if (g.bool()) o.passthrough = true;
  return two(o, g.reqOpts({ idem: true }));
}, null, { composite: 'forward', optsAt: 1, idem: true });

// ---------------------------------------------------------------- batch
for (const n of ['send', 'create'])
  def(`batch.${n}`, (g) => {
    const len = dnum(g.r, 0.25, 0, 150) ?? g.r.weighted([[1, 3], [2, 3], [5, 2], [0, 0.3], [30, 0.05 * g.scale], [100, 0.1 * g.scale], [101, 0.05 * g.scale], [230, 0.03 * g.scale]]);
    const emails = Array.from({ length: len }, () => genEmail(g, { batch: true }));
    if (len && g.chance(0.12)) emails.splice(g.r.int(len + 1), 0, structuredClone(g.pick(emails)));
    return two(emails, g.reqOpts({ idem: true, batch: true }));
  }, ([p]) => POST(['emails', 'batch'], p.map(emailBody)), { kind: 'batch', optsAt: 1, idem: true, batch: true, reactAt: (a) => a[0].map((e) => e.react) });

// ---------------------------------------------------------------- broadcasts
const bFields = (g) => ({
  '?name': () => g.text(), '?segmentId': () => g.bodyId(), '?audienceId': () => g.bodyId(), '?previewText': () => g.text(), '?replyTo': () => g.to(), '?topicId': () => (g.chance(0.3) ? null : g.bodyId()), '?text': () => g.text(),
});
const genB = (g, o) => {
  if (g.chance(g.react)) o.react = g.reactNode();
  if (!o.react || g.chance(0.2)) o.html = g.chance(0.1) ? '' : `<b>${g.text()}</b>`;
  return o;
};
def('broadcasts.create', (g) => {
  const o = genB(g, g.obj({ ...bFields(g), from: () => g.addr(), subject: () => g.text() }));
  if (g.chance(0.4)) { o.send = g.bool(); if (o.send && g.bool()) o.scheduledAt = g.date(); }
  return two(o, g.reqOpts());
}, ([p]) => POST(['broadcasts'], { name: p.name, segment_id: p.segmentId, audience_id: p.audienceId, preview_text: p.previewText, from: p.from, html: htmlOf(p), reply_to: p.replyTo, subject: p.subject, text: p.text, topic_id: p.topicId, send: p.send, scheduled_at: p.scheduledAt }), { optsAt: 1, reactAt: (a) => [a[0].react] });
def('broadcasts.send', (g) => two(g.id(), g.chance(0.5) ? g.obj({ '?scheduledAt': () => g.date() }) : U), ([id, p]) => POST(['broadcasts', id, 'send'], { scheduled_at: p?.scheduledAt }));
def('broadcasts.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['broadcasts'], page(o)), { kind: 'list' });
def('broadcasts.get', (g) => [g.id()], ([id]) => GET(['broadcasts', id]));
def('broadcasts.recipients', (g) => [g.id(), (() => {
  const t = g.oneOf(['sent', 'delivered', 'opened', 'clicked', 'bounced', 'complained', 'unsubscribed', 'suppressed']);
  return { ...g.page({ email: () => g.contactEmail(), ...(t === 'bounced' ? { bounceType: () => g.oneOf(['permanent', 'transient', 'undetermined']) } : {}) }), type: t };
})()], ([id, o]) => GET(['broadcasts', id, 'recipients'], [...page(o), ['type', o.type], ...(o.email !== U ? [['email', o.email]] : []), ...(o.bounceType !== U ? [['bounce_type', o.bounceType]] : [])]), { kind: 'list', filters: true });
def('broadcasts.clickedLinks', (g) => two(g.id(), g.chance(0.6) ? g.page() : U), ([id, o]) => GET(['broadcasts', id, 'clicked-links'], page(o)), { kind: 'list' });
def('broadcasts.remove', (g) => [g.id()], ([id]) => DEL(['broadcasts', id]));
def('broadcasts.cancel', (g) => [g.id()], ([id]) => POST(['broadcasts', id, 'cancel']));
def('broadcasts.update', (g) => [g.id(), genB(g, g.obj({ ...bFields(g), '?from': () => g.addr(), '?subject': () => g.text() }))], ([id, p]) => PATCH(['broadcasts', id], { name: p.name, segment_id: p.segmentId, audience_id: p.audienceId, from: p.from, html: htmlOf(p), text: p.text, subject: p.subject, reply_to: p.replyTo, preview_text: p.previewText, topic_id: p.topicId }), { reactAt: (a) => [a[1].react] });

// ---------------------------------------------------------------- templates
const tBody = (t) => ({ name: t.name, subject: t.subject, html: htmlOf(t), text: t.text, alias: t.alias, from: t.from, reply_to: t.replyTo, variables: t.variables?.map((v) => ({ key: v.key, type: v.type, fallback_value: v.fallbackValue })) });
const nul = (g, f) => (g.chance(0.25) ? null : f());
const tFields = (g) => ({
  '?subject': () => nul(g, () => g.text()), '?text': () => nul(g, () => g.text()), '?alias': () => nul(g, () => g.text()), '?from': () => nul(g, () => g.addr()), '?replyTo': () => g.to(),
  '?variables': () => g.list(() => g.obj({ key: () => g.name(), type: () => g.pick(['string', 'number']), '?fallbackValue': () => g.pick([null, 0, '', 'x', 3.5, g.text()]) })),
});
const genT = (g) => {
  const o = g.obj({ name: () => g.text(), ...tFields(g) });
  if (g.chance(g.react)) o.react = g.reactNode();
  if (!o.react || g.chance(0.2)) o.html = g.chance(0.1) ? '' : `<i>${g.text()}</i>`;
  return [o];
};
def('templates.create', genT, ([t]) => POST(['templates'], tBody(t)), { reactAt: (a) => [a[0].react] });
def('templates.get', (g) => [g.ident()], ([id]) => GET(['templates', id]), { ident: true });
def('templates.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['templates'], page(o)), { kind: 'list' });
def('templates.duplicate', (g) => [g.ident()], ([id]) => POST(['templates', id, 'duplicate']), { ident: true });
def('templates.publish', (g) => [g.ident()], ([id]) => POST(['templates', id, 'publish']), { ident: true });
def('templates.update', (g) => [g.ident(), g.obj({ '?name': () => g.text(), '?html': () => g.text(), ...tFields(g) })], ([id, t]) => PATCH(['templates', id], tBody(t)), { ident: true });
def('templates.remove', (g) => [g.ident()], ([id]) => DEL(['templates', id]), { ident: true });
def('templates.create.publish', genT, null, { composite: 'chain', path: ['templates', 'create'], chain: true, first: 'templates.create', reactAt: (a) => [a[0].react] });
def('templates.duplicate.publish', (g) => [g.ident()], null, { composite: 'chain', path: ['templates', 'duplicate'], chain: true, first: 'templates.duplicate', ident: true });

// ---------------------------------------------------------------- webhooks
def('webhooks.create', (g) => two({ endpoint: `https://hooks.example.com/${g.chance(0.3) ? g.text() : g.hex(3)}`, events: g.chance(0.2) ? g.list(() => g.oneOf(['email.sent', 'email.opened'])) : g.r.shuffle(g.r.sample(['email.sent', 'email.bounced', 'contact.created', 'domain.updated'], g.int(0, 3))) }, g.reqOpts()), ([p]) => POST(['webhooks'], p), { optsAt: 1 });
def('webhooks.get', (g) => [g.id()], ([id]) => GET(['webhooks', id]));
def('webhooks.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['webhooks'], page(o)), { kind: 'list' });
def('webhooks.update', (g) => [g.id(), g.obj({ '?endpoint': () => g.pick(['https://e.example.com', '', g.text()]), '?events': () => g.list(() => g.oneOf(['email.sent', 'email.clicked', 'contact.deleted'])), '?status': () => g.oneOf(['enabled', 'disabled']) })], ([id, p]) => PATCH(['webhooks', id], p));
def('webhooks.remove', (g) => [g.id()], ([id]) => DEL(['webhooks', id]));

// ---------------------------------------------------------------- contacts
const props = (g) => Object.fromEntries(g.list(() => [g.chance(0.2) ? g.name() : g.key('plan', 'age', 'é', 'first_name', 'camelCase', 'x y'), g.pick([null, 0, '', 'pro', -1.5, g.text(), g.text(), { $: 'undef' }])]));
const cFields = (g) => ({ '?unsubscribed': () => g.bool(), '?firstName': () => g.text(), '?lastName': () => g.text(), '?properties': () => props(g) });
const cuFields = (g) => ({ '?unsubscribed': () => g.bool(), '?firstName': () => nul(g, () => g.text()), '?lastName': () => nul(g, () => g.text()), '?properties': () => props(g) });
const cBody = (p) => ({ unsubscribed: p.unsubscribed, email: p.email, first_name: p.firstName, last_name: p.lastName, properties: p.properties });
def('contacts.create', (g) => {
  let o;
  if (g.chance(0.25)) {
    o = { audienceId: g.id(), ...g.obj({ email: () => g.addr(), ...cFields(g) }) };
    if (g.chance(g.invalid * 2)) o[g.pick(['segments', 'topics'])] = g.bool() ? [] : [{ id: g.id() }];
  } else {
    o = g.obj({ email: () => g.addr(), ...cFields(g), '?segments': () => g.list(() => ({ id: g.bodyId() })), '?topics': () => g.list(() => ({ id: g.bodyId(), subscription: g.oneOf(['opt_in', 'opt_out']) })) });
  }
  return two(o, g.reqOpts());
}, ([p]) => {
  if ('audienceId' in p) {
    if ('segments' in p || 'topics' in p) return local('invalid_parameter');
    return POST(['audiences', p.audienceId, 'contacts'], cBody(p));
  }
  return POST(['contacts'], { ...cBody(p), segments: p.segments, topics: p.topics });
}, { optsAt: 1 });
def('contacts.list', (g) => (g.chance(0.2) ? [] : [g.page(g.bool() ? { segmentId: () => g.id() } : { audienceId: () => g.id() })]), ([o = {}]) => {
  const s = o.segmentId ?? o.audienceId;
  return GET(s ? ['segments', s, 'contacts'] : ['contacts'], page(o));
}, { kind: 'list', filters: true });
const sel = (g, { idKey = 'id', aud = true } = {}) => {
  const o = {};
  if (g.chance(g.invalid)) {
    if (g.bool()) o[idKey] = g.pick(['', { $: 'undef' }]);
    if (g.bool()) o.email = g.pick(['', { $: 'undef' }]);
  } else if (g.bool()) o.email = g.contactEmail();
  else o[idKey] = g.ident();
  if (!o.email && o[idKey] && g.chance(0.1)) o.email = '';
  if (o.email && !o[idKey] && g.chance(0.1)) o[idKey] = '';
  if (aud && g.chance(0.3)) o.audienceId = g.id();
  return o;
};
const who = (o, idKey = 'id') => (o.email ? o.email : o[idKey]);
const cPath = (o) => (o.audienceId ? ['audiences', o.audienceId, 'contacts', who(o)] : ['contacts', who(o)]);
def('contacts.get', (g) => [g.chance(0.4) ? g.contactEmail() : sel(g)], ([o]) => {
  if (typeof o === 'string') return GET(['contacts', o]);
  return who(o) ? GET(cPath(o)) : local('missing_required_field');
}, { ident: true });
def('contacts.update', (g) => [{ ...sel(g), ...g.obj(cuFields(g)) }], ([o]) => (who(o) ? PATCH(cPath(o), { unsubscribed: o.unsubscribed, first_name: o.firstName, last_name: o.lastName, properties: o.properties }) : local('missing_required_field')), { ident: true });
def('contacts.remove', (g) => [g.chance(0.4) ? g.contactEmail() : sel(g)], ([o]) => {
  if (typeof o === 'string') return DEL(['contacts', o]);
  return who(o) ? DEL(cPath(o)) : local('missing_required_field');
}, { ident: true });
def('contacts.imports.create', (g) => {
  const o = { file: genFile(g) };
  if (g.chance(0.5)) o.columnMap = g.obj({ '?email': () => g.text(), '?firstName': () => g.text(), '?lastName': () => g.text(), '?unsubscribed': () => g.text(), '?properties': () => Object.fromEntries(g.list(() => [g.chance(0.1) ? g.key() : g.name(), g.obj({ column: () => g.text(), '?type': () => g.pick(['string', 'number', 'boolean']) })])) });
  if (g.chance(0.5)) o.onConflict = g.oneOf(['upsert', 'skip']);
  if (g.chance(0.5)) o.segments = g.list(() => ({ id: g.bodyId() }));
  if (g.chance(0.5)) o.topics = g.list(() => ({ id: g.bodyId(), subscription: g.oneOf(['opt_in', 'opt_out']) }));
  return two(o, g.reqOpts());
}, ([p]) => ({
  method: 'POST', segs: ['contacts', 'imports'], q: [], form: {
    file: p.file,
    column_map: p.columnMap && { email: p.columnMap.email, first_name: p.columnMap.firstName, last_name: p.columnMap.lastName, unsubscribed: p.columnMap.unsubscribed, properties: p.columnMap.properties },
    on_conflict: p.onConflict, segments: p.segments, topics: p.topics,
  },
}), { optsAt: 1, form: true });
function genFile(g) {
  const r = g.r;
  const k = r.chance(0.03) ? 9 : r.int(5);
  let b;
  if (k === 9) b = Buffer.from(Array.from({ length: r.pick([66_000, 140_000]) }, (_, i) => (i * 31 + (i >> 8)) & 255));
  else if (k === 0) b = Buffer.alloc(0);
  else if (k === 1) b = Buffer.from(g.hex(2 * r.pick([1, 16, 1000, 5000])), 'hex');
  else if (k === 2) b = Buffer.from(`\ufeffemail,first name\r\n${g.email()},"${g.text()}"\r\n`);
  else if (k === 3) b = Buffer.from(`email;name\n${g.email()};José\n`, 'latin1');
  else b = Buffer.from(`email,name\n${Array.from({ length: r.int(50) }, () => `${g.email()},${g.text()}`).join('\n')}`);
  const size = dnum(r, 0.2, 0, 200_000);
  if (size !== null) b = Buffer.alloc(size, 'email,name\n');
  const word = dstr(r, 0.3);
  if (word !== null) b = r.chance(0.5) ? Buffer.from(word + b.toString('utf8')) : Buffer.from(`email,${word}\n${g.email()},${word}\n`);
  const f = { $: 'blob', b64: b.toString('base64'), type: dstr(r, 0.2, (s) => PRINTABLE.test(s)) ?? r.pick(['text/csv', '', 'application/octet-stream', 'text/csv;charset=utf-8']) };
  if (r.chance(0.4)) f.name = dstr(r, 0.3, (s) => PRINTABLE.test(s)) ?? r.pick(['contacts.csv', 'año "1".csv', 'a b.csv', 'x', 'people.txt', 'UPPER.CSV', 'list.csv.zip', '../up.csv', '東京.csv', 'no;semi=1.csv', '.csv']);
  return f;
}
def('contacts.imports.list', (g) => (g.chance(0.2) ? [] : [g.page({ status: () => g.oneOf(['queued', 'processing', 'completed', 'failed']) })]), ([o = {}]) => GET(['contacts', 'imports'], [...page(o), ...(o.status !== U ? [['status', o.status]] : [])]), { kind: 'list', filters: true });
def('contacts.imports.get', (g) => [g.id()], ([id]) => GET(['contacts', 'imports', id]));
def('contacts.segments.list', (g) => [{ ...sel(g, { idKey: 'contactId', aud: false }), ...g.page() }], ([o]) => (who(o, 'contactId') ? GET(['contacts', who(o, 'contactId'), 'segments'], page(o)) : local('missing_required_field')), { kind: 'list', ident: true });
def('contacts.segments.add', (g) => [{ ...sel(g, { idKey: 'contactId', aud: false }), segmentId: g.id() }], ([o]) => (who(o, 'contactId') ? POST(['contacts', who(o, 'contactId'), 'segments', o.segmentId]) : local('missing_required_field')), { ident: true });
def('contacts.segments.remove', (g) => [{ ...sel(g, { idKey: 'contactId', aud: false }), segmentId: g.id() }], ([o]) => (who(o, 'contactId') ? DEL(['contacts', who(o, 'contactId'), 'segments', o.segmentId]) : local('missing_required_field')), { ident: true });
def('contacts.topics.update', (g) => [{ ...sel(g, { aud: false }), topics: g.list(() => ({ id: g.bodyId(), subscription: g.oneOf(['opt_in', 'opt_out']) })) }], ([o]) => (who(o) ? PATCH(['contacts', who(o), 'topics'], o.topics) : local('missing_required_field')), { ident: true });
def('contacts.topics.list', (g) => [{ ...sel(g, { aud: false }), ...g.page() }], ([o]) => (who(o) ? GET(['contacts', who(o), 'topics'], page(o)) : local('missing_required_field')), { kind: 'list', ident: true });

// ---------------------------------------------------------------- contact properties
const fb = (g) => g.pick([null, 0, '', 'Acme', 12, g.text()]);
def('contactProperties.create', (g) => [g.obj({ key: () => g.name(), type: () => g.pick(['string', 'number']), '?fallbackValue': () => fb(g) })], ([o]) => POST(['contact-properties'], { key: o.key, type: o.type, fallback_value: o.fallbackValue }));
def('contactProperties.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['contact-properties'], page(o)), { kind: 'cplist' });
const maybeId = (g) => (g.chance(g.invalid) ? '' : g.id());
const needId = (id, r) => (id ? r : local('missing_required_field'));
def('contactProperties.get', (g) => [maybeId(g)], ([id]) => needId(id, GET(['contact-properties', id])), { kind: 'cp' });
def('contactProperties.update', (g) => [g.obj({ id: () => maybeId(g), '?fallbackValue': () => fb(g) })], ([o]) => needId(o.id, PATCH(['contact-properties', o.id], { fallback_value: o.fallbackValue })));
def('contactProperties.remove', (g) => [maybeId(g)], ([id]) => needId(id, DEL(['contact-properties', id])));

// ---------------------------------------------------------------- domains
const dFields = (g) => ({ '?openTracking': () => g.bool(), '?clickTracking': () => g.bool(), '?trackingSubdomain': () => g.text() });
const caps = (g) => g.obj({ '?sending': () => g.oneOf(['enabled', 'disabled']), '?receiving': () => g.oneOf(['enabled', 'disabled']) });
def('domains.create', (g) => two(g.obj({ name: () => g.text(), '?region': () => g.oneOf(['us-east-1', 'eu-west-1']), '?customReturnPath': () => g.text(), '?capabilities': () => caps(g), '?tls': () => g.oneOf(['enforced', 'opportunistic']), ...dFields(g) }), g.reqOpts()), ([p]) => POST(['domains'], { name: p.name, region: p.region, custom_return_path: p.customReturnPath, capabilities: p.capabilities, open_tracking: p.openTracking, click_tracking: p.clickTracking, tls: p.tls, tracking_subdomain: p.trackingSubdomain }), { optsAt: 1 });
def('domains.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['domains'], page(o)), { kind: 'list' });
def('domains.get', (g) => [g.id()], ([id]) => GET(['domains', id]));
def('domains.update', (g) => [g.obj({ id: () => g.id(), '?tls': () => g.oneOf(['enforced', 'opportunistic']), '?capabilities': () => caps(g), ...dFields(g) })], ([p]) => PATCH(['domains', p.id], { click_tracking: p.clickTracking, open_tracking: p.openTracking, tls: p.tls, capabilities: p.capabilities, tracking_subdomain: p.trackingSubdomain }));
def('domains.remove', (g) => [g.id()], ([id]) => DEL(['domains', id]));
def('domains.verify', (g) => [g.id()], ([id]) => POST(['domains', id, 'verify']));
def('domains.claims.create', (g) => two(g.obj({ name: () => g.text(), '?region': () => g.oneOf(['eu-west-1', 'sa-east-1']), '?customReturnPath': () => g.text(), ...dFields(g) }), g.reqOpts()), ([p]) => POST(['domains', 'claim'], { name: p.name, region: p.region, custom_return_path: p.customReturnPath, open_tracking: p.openTracking, click_tracking: p.clickTracking, tracking_subdomain: p.trackingSubdomain }), { optsAt: 1 });
def('domains.claims.get', (g) => [g.id()], ([id]) => GET(['domains', id, 'claim']));
def('domains.claims.verify', (g) => [g.id()], ([id]) => POST(['domains', id, 'claim', 'verify']));

// ---------------------------------------------------------------- api keys
def('apiKeys.create', (g) => two(g.obj({ name: () => g.text(), '?permission': () => g.oneOf(['full_access', 'sending_access']), '?domain_id': () => g.bodyId() }), g.reqOpts()), ([p]) => POST(['api-keys'], p), { optsAt: 1 });
def('apiKeys.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['api-keys'], page(o)), { kind: 'list' });
def('apiKeys.update', (g) => [g.id(), { name: g.text() }], ([id, p]) => PATCH(['api-keys', id], p));
def('apiKeys.remove', (g) => [g.id()], ([id]) => DEL(['api-keys', id]));

// ---------------------------------------------------------------- events
const schema = (g) => nul(g, () => Object.fromEntries(g.list(() => [g.chance(0.1) ? g.key() : g.name(), g.pick(['string', 'number', 'boolean', 'date'])])));
def('events.send', (g) => [{ event: g.text(), ...(g.bool() ? { contactId: g.bodyId() } : { email: g.addr() }), ...g.obj({ '?payload': () => ({ p: g.json(3, true) }) }) }], ([p]) => POST(['events', 'send'], { event: p.event, contact_id: p.contactId, email: p.email, payload: p.payload }));
def('events.create', (g) => [g.obj({ name: () => g.text(), '?schema': () => schema(g) })], ([p]) => POST(['events'], p));
def('events.get', (g) => [g.ident()], ([id]) => GET(['events', id]), { ident: true });
def('events.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['events'], page(o)), { kind: 'list' });
def('events.update', (g) => [g.ident(), { schema: schema(g) }], ([id, p]) => PATCH(['events', id], p), { ident: true });
def('events.remove', (g) => [g.ident()], ([id]) => DEL(['events', id]), { ident: true });

// ---------------------------------------------------------------- logs, oauth
def('logs.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['logs'], page(o)), { kind: 'list' });
def('logs.get', (g) => [g.id()], ([id]) => GET(['logs', id]));
def('oauthGrants.list', (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['oauth', 'grants'], page(o)), { kind: 'list' });
def('oauthGrants.revoke', (g) => [g.id()], ([id]) => DEL(['oauth', 'grants', id]));

// ---------------------------------------------------------------- segments / audiences
for (const n of ['segments', 'audiences']) {
  def(`${n}.create`, (g) => two({ name: g.text() }, g.reqOpts()), ([p]) => POST(['segments'], p), { optsAt: 1 });
  def(`${n}.list`, (g) => (g.chance(0.3) ? [] : [g.page()]), ([o]) => GET(['segments'], page(o)), { kind: 'list' });
  def(`${n}.get`, (g) => [g.id()], ([id]) => GET(['segments', id]));
  def(`${n}.remove`, (g) => [g.id()], ([id]) => DEL(['segments', id]));
}

// ---------------------------------------------------------------- suppressions
const maybeIdent = (g) => (g.chance(g.invalid) ? '' : g.ident(() => (g.bool() ? g.email() : g.id())));
def('suppressions.add', (g) => [g.obj({ email: () => g.addr() })], ([p]) => POST(['suppressions'], p));
def('suppressions.list', (g) => (g.chance(0.2) ? [] : [g.page({ origin: () => g.oneOf(['bounce', 'complaint', 'manual']) })]), ([o = {}]) => GET(['suppressions'], [...page(o), ...(o.origin !== U ? [['origin', o.origin]] : [])]), { kind: 'list', filters: true });
def('suppressions.get', (g) => [maybeIdent(g)], ([id]) => needId(id, GET(['suppressions', id])), { ident: true });
def('suppressions.remove', (g) => [maybeIdent(g)], ([id]) => needId(id, DEL(['suppressions', id])), { ident: true });
def('suppressions.batch.add', (g) => [{ emails: g.list(() => g.addr(), 6) }], ([p]) => POST(['suppressions', 'batch', 'add'], p));
def('suppressions.batch.remove', (g) => [g.bool() ? { emails: g.list(() => g.addr(), 6) } : { ids: g.list(() => g.bodyId(), 6) }], ([p]) => POST(['suppressions', 'batch', 'remove'], p));

// ---------------------------------------------------------------- topics
def('topics.create', (g) => [g.obj({ name: () => g.text(), '?description': () => g.text(), defaultSubscription: () => g.oneOf(['opt_in', 'opt_out']) })], ([p]) => {
  const { defaultSubscription, ...rest } = p;
  return POST(['topics'], { ...rest, default_subscription: defaultSubscription });
});
def('topics.list', () => [], () => GET(['topics']), { kind: 'list', nopage: true });
def('topics.get', (g) => [maybeId(g)], ([id]) => needId(id, GET(['topics', id])));
def('topics.update', (g) => [g.obj({ id: () => maybeId(g), '?name': () => g.text(), '?description': () => g.text() })], ([p]) => needId(p.id, PATCH(['topics', p.id], p)), { bodyIgnore: ['id'] });
def('topics.remove', (g) => [maybeId(g)], ([id]) => needId(id, DEL(['topics', id])));

// ---------------------------------------------------------------- automations
const rule = (g, d = 2) => {
  if (d > 0 && g.chance(0.3)) return { type: g.pick(['and', 'or']), rules: g.list(() => rule(g, d - 1), 3) };
  const op = g.pick(['eq', 'neq', 'gt', 'contains', 'exists', 'is_empty']);
  const o = { type: 'rule', field: g.pick(['plan', 'contact.firstName', 'eventName', g.name()]), operator: op };
  if (op === 'eq' || op === 'neq') o.value = g.pick(['', 0, false, null, g.text()]);
  if (op === 'gt') o.value = g.pick([0, -1, 2.5]);
  if (op === 'contains') o.value = g.text();
  return o;
};
const varOr = (g, f) => (g.chance(0.3) ? { var: g.pick(['contact.first_name', 'event.eventName']) } : f());
const step = (g) => {
  const key = g.pick(['a', 'b', 'start', g.odd()]);
  const type = g.pick(['trigger', 'delay', 'send_email', 'wait_for_event', 'condition', 'contact_update', 'contact_delete', 'add_to_segment']);
  const config = {
    trigger: () => ({ eventName: g.text() }),
    delay: () => ({ duration: g.pick(['1 hour', '3 days', g.text()]) }),
    send_email: () => g.obj({ template: () => g.obj({ id: () => g.bodyId(), '?variables': () => Object.fromEntries(g.list(() => [g.key('userName', 'replyTo', 'first_name'), varOr(g, () => g.pick([0, '', false, g.text(), [1, { a: true }], { eventName: 'x' }, { $: 'undef' }]))])) }), '?subject': () => g.text(), '?from': () => g.addr(), '?replyTo': () => g.addr() }),
    wait_for_event: () => g.obj({ eventName: () => g.text(), '?timeout': () => g.pick(['3 days', '', g.text()]), '?filterRule': () => rule(g) }),
    condition: () => rule(g),
    contact_update: () => g.obj({ '?firstName': () => nul(g, () => varOr(g, () => g.text())), '?lastName': () => nul(g, () => varOr(g, () => g.text())), '?unsubscribed': () => varOr(g, () => g.bool()), '?properties': () => (g.chance(0.1) ? {} : { [g.key('p', 'firstName', 'é')]: nul(g, () => varOr(g, () => g.pick([0, '', false, 'x', { $: 'undef' }]))) }) }),
    contact_delete: () => ({}),
    add_to_segment: () => ({ segmentId: g.bodyId() }),
  }[type]();
  return { key, type, config };
};
const conn = (g) => g.obj({ from: () => g.pick(['a', 'b', 'start', g.text()]), to: () => g.pick(['a', 'b', 'end', g.text()]), '?type': () => g.oneOf(['default', 'condition_met', 'condition_not_met', 'timeout', 'event_received']) });
const mapStep = (s) => {
  const c = s.config;
  const config = {
    trigger: () => ({ event_name: c.eventName }),
    delay: () => c,
    send_email: () => ({ template: c.template, subject: c.subject, from: c.from, reply_to: c.replyTo }),
    wait_for_event: () => ({ event_name: c.eventName, timeout: c.timeout, filter_rule: c.filterRule }),
    condition: () => c,
    contact_update: () => ({ first_name: c.firstName, last_name: c.lastName, unsubscribed: c.unsubscribed, properties: c.properties }),
    contact_delete: () => c,
    add_to_segment: () => ({ segment_id: c.segmentId }),
  }[s.type]();
  return { key: s.key, type: s.type, config };
};
const mapConn = (c) => ({ from: c.from, to: c.to, type: c.type });
const aBody = (p) => ({ name: p.name, status: p.status, steps: p.steps?.map(mapStep), connections: p.connections?.map(mapConn) });
def('automations.create', (g) => [g.obj({ name: () => g.text(), '?status': () => g.oneOf(['enabled', 'disabled']), steps: () => g.list(() => step(g), 5), connections: () => g.list(() => conn(g), 4) })], ([p]) => POST(['automations'], aBody(p)));
def('automations.list', (g) => (g.chance(0.2) ? [] : [g.page({ status: () => g.oneOf(['enabled', 'disabled']) })]), ([o = {}]) => GET(['automations'], [...page(o), ...(o.status !== U ? [['status', o.status]] : [])]), { kind: 'list', filters: true });
def('automations.get', (g) => [g.id()], ([id]) => GET(['automations', id]));
def('automations.remove', (g) => [g.id()], ([id]) => DEL(['automations', id]));
def('automations.update', (g) => [g.id(), g.obj({ '?name': () => g.text(), '?status': () => g.oneOf(['enabled', 'disabled']), '?steps': () => g.list(() => step(g), 4), '?connections': () => g.list(() => conn(g), 3) })], ([id, p]) => PATCH(['automations', id], aBody(p)));
def('automations.duplicate', (g) => [g.id()], ([id]) => POST(['automations', id, 'duplicate']));
def('automations.stop', (g) => [g.id()], ([id]) => POST(['automations', id, 'stop']));
def('automations.runs.get', (g) => [{ automationId: g.id(), runId: g.id() }], ([o]) => GET(['automations', o.automationId, 'runs', o.runId]));
def('automations.runs.list', (g) => [{ automationId: g.id(), ...g.page({ status: () => g.pick([() => g.oneOf(['running', 'failed']), () => ['running', 'failed'], () => ['completed'], () => ['running', 'completed', 'failed', 'cancelled'], () => g.r.shuffle(['running', 'failed', 'cancelled'])])() }) }], ([o]) => GET(['automations', o.automationId, 'runs'], [...page(o), ...(o.status !== U ? [['status', Array.isArray(o.status) ? o.status.join(',') : o.status]] : [])]), { kind: 'list', filters: true });

// ---------------------------------------------------------------- raw verbs
const rawPath = (g) => { const d = dstr(g.r, 0.2, (s) => /^[\w/.-]+$/.test(s) && !/^\.|\/\.|\/\//.test(s)); return d !== null ? (d.startsWith('/') ? d : `/${d}`) : rawPaths(g); };
const rawPaths = (g) => g.pick(['/emails', '/custom', '/v2/thing?x=1&y=a%20b', `/things/${g.hex(4)}`]);
const raw = (path) => ({ rawPath: path });
const opts = (g) => (g.chance(0.4) ? g.reqOpts() : U);
def('post', (g) => {
  const o = g.reqOpts({ idem: true });
  const a = [rawPath(g)];
  if (o || g.chance(0.8)) a.push(g.chance(0.1) ? { $: 'undef' } : { v: g.json(3, true) });
  if (o) a.push(o);
  return a;
}, ([p, b]) => ({ method: 'POST', ...raw(p), body: b }), { optsAt: 2, idem: true, raw: true });
def('get', (g) => two(rawPath(g), opts(g)), ([p]) => ({ method: 'GET', ...raw(p) }), { optsAt: 1, raw: true });
def('put', (g) => { const o = opts(g); return o ? [rawPath(g), { v: g.json(2, true) }, o] : [rawPath(g), { v: g.json(2, true) }]; }, ([p, b]) => ({ method: 'PUT', ...raw(p), body: b }), { optsAt: 2, raw: true });
def('patch', (g) => { const o = opts(g); return o ? [rawPath(g), g.json(2) ?? {}, o] : [rawPath(g), { v: g.json(2, true) }]; }, ([p, b]) => ({ method: 'PATCH', ...raw(p), body: b }), { optsAt: 2, raw: true });
def('delete', (g) => { const o = opts(g); const b = g.chance(0.4) ? { v: g.json(2, true) } : { $: 'undef' }; return o ? [rawPath(g), b, o] : b.$ ? [rawPath(g)] : [rawPath(g), b]; }, ([p, b]) => ({ method: 'DELETE', ...raw(p), body: b }), { optsAt: 2, raw: true });

export const ALL = Object.keys(E);
export const SINGLE = ALL.filter((n) => !E[n].composite);
export const LISTS = ALL.filter((n) => E[n].kind === 'list' || E[n].kind === 'cplist');
export const WRITES = SINGLE.filter((n) => !E[n].raw && !E[n].form && /POST|PATCH/.test(String(E[n].req)));
export { at };

export function invoke(client, name, args) {
  const e = E[name];
  let o = client;
  for (let i = 0; i < e.path.length - 1; i++) o = o[e.path[i]];
  const r = o[e.path[e.path.length - 1]](...args);
  return e.chain ? r.publish() : r;
}
