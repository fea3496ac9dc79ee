From 7573f155243b810ec03af94333d6cf30113889f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 1/8] fix: report non-2xx responses whose JSON body is not an
 object as application_error

A body such as `null`, `false`, `"Service Unavailable"` or `[]` was returned
as the `error` itself, so a failed request could look like neither a success
nor a failure (`{ data: null, error: null }`) or carry an error without a name.
---
 src/resend.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resend.ts b/src/resend.ts
index fe4f5e0..d711bd2 100644
--- a/src/resend.ts
+++ b/src/resend.ts
@@ -120,6 +120,14 @@ export class Resend {
           const rawError = await response.text();
           const parsedError = JSON.parse(rawError);
 
+          if (
+            typeof parsedError !== 'object' ||
+            parsedError === null ||
+            Array.isArray(parsedError)
+          ) {
+            throw new SyntaxError('The error body is not a JSON object');
+          }
+
           this.logError(parsedError, path, response.status);
 
           return {
-- 
2.43.0


From 94bbca0ddd037946745ed66e2c4ff33f0680706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 2/8] fix: resolve with an error when a received email cannot
 be downloaded or parsed

`emails.receiving.forward` rejected when the download of the raw message
failed on the network (or broke off) and when the message could not be parsed,
although every call is documented to resolve with `{ data, error }`.
---
 src/emails/receiving/receiving.ts | 66 +++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 684e1e4..25e9790 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -125,25 +125,53 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    let rawEmailContent: string;
+
+    try {
+      const rawResponse = await fetch(email.raw.download_url);
+
+      if (!rawResponse.ok) {
+        return {
+          data: null,
+          error: {
+            name: 'application_error',
+            message: 'Failed to download raw email content',
+            statusCode: rawResponse.status,
+          },
+          headers: null,
+        };
+      }
 
-    if (!rawResponse.ok) {
+      rawEmailContent = await rawResponse.text();
+    } catch {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: null,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
+    let parsed: Awaited<ReturnType<typeof PostalMime.parse>>;
 
-    const parsed = await PostalMime.parse(rawEmailContent, {
-      attachmentEncoding: 'base64',
-    });
+    try {
+      parsed = await PostalMime.parse(rawEmailContent, {
+        attachmentEncoding: 'base64',
+      });
+    } catch {
+      return {
+        data: null,
+        error: {
+          name: 'application_error',
+          message: 'Failed to parse raw email content',
+          statusCode: null,
+        },
+        headers: null,
+      };
+    }
 
     const attachments = parsed.attachments.map((attachment) => {
       const contentId = attachment.contentId
@@ -199,22 +227,36 @@ export class Receiving {
       };
     }
 
-    const rawResponse = await fetch(email.raw.download_url);
+    let rawEmailContent: string;
+
+    try {
+      const rawResponse = await fetch(email.raw.download_url);
 
-    if (!rawResponse.ok) {
+      if (!rawResponse.ok) {
+        return {
+          data: null,
+          error: {
+            name: 'application_error',
+            message: 'Failed to download raw email content',
+            statusCode: rawResponse.status,
+          },
+          headers: null,
+        };
+      }
+
+      rawEmailContent = await rawResponse.text();
+    } catch {
       return {
         data: null,
         error: {
           name: 'application_error',
           message: 'Failed to download raw email content',
-          statusCode: rawResponse.status,
+          statusCode: null,
         },
         headers: null,
       };
     }
 
-    const rawEmailContent = await rawResponse.text();
-
     const data = await this.resend.post<ForwardReceivingEmailResponseSuccess>(
       '/emails',
       {
-- 
2.43.0


From 2b50a86b18a750e3651a87e30bf1f48de47fe08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 3/8] fix: forward received emails byte for byte

The raw message was decoded as UTF-8 text before being wrapped or parsed, which
replaced every byte sequence that is not valid UTF-8 (8bit bodies in other
charsets, binary parts) and dropped a leading byte order mark.
---
 src/emails/receiving/receiving.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 25e9790..1bf920c 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -125,7 +125,7 @@ export class Receiving {
       };
     }
 
-    let rawEmailContent: string;
+    let rawEmailContent: ArrayBuffer;
 
     try {
       const rawResponse = await fetch(email.raw.download_url);
@@ -142,7 +142,7 @@ export class Receiving {
         };
       }
 
-      rawEmailContent = await rawResponse.text();
+      rawEmailContent = await rawResponse.arrayBuffer();
     } catch {
       return {
         data: null,
@@ -227,7 +227,7 @@ export class Receiving {
       };
     }
 
-    let rawEmailContent: string;
+    let rawEmailContent: ArrayBuffer;
 
     try {
       const rawResponse = await fetch(email.raw.download_url);
@@ -244,7 +244,7 @@ export class Receiving {
         };
       }
 
-      rawEmailContent = await rawResponse.text();
+      rawEmailContent = await rawResponse.arrayBuffer();
     } catch {
       return {
         data: null,
-- 
2.43.0


From 491ada6bf41b853c47c9a401f2afb01ab2517885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 4/8] fix: leave the caller's batch payload alone

`batch.send` wrote the rendered html into the caller's emails and erased their
`react`, so that sending the same payload again (a retry, for instance) sent
stale html; emails after the first rendered one were also read only after the
render, so changes made in the meantime leaked into the request.
---
 src/batch/batch.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index 777f328..e06ccf7 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,7 +25,11 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
-    for (const email of payload) {
+    // The payload is the caller's: work on copies taken before anything is
+    // awaited, so that it is neither changed nor read again later.
+    const copies = payload.map((email) => ({ ...email }));
+
+    for (const email of copies) {
       if (email.react) {
         email.html = await render(email.react);
         email.react = undefined;
-- 
2.43.0


From a2ecb6d9a43c2bff0dbce2dd95b22ae5f4630f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 5/8] fix: keep batch request headers given as Headers or as
 entries

`batch.send` spread `options.headers` into an object, which loses every header
of a `Headers` instance or of an array of entries, and which sends both values
when `X-Batch-Validation` is written in another case.
---
 src/batch/batch.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/batch/batch.ts b/src/batch/batch.ts
index e06ccf7..992933a 100644
--- a/src/batch/batch.ts
+++ b/src/batch/batch.ts
@@ -25,6 +25,12 @@ export class Batch {
   ): Promise<CreateBatchResponse<Options>> {
     const emails: EmailApiOptions[] = [];
 
+    const headers = new Headers(options?.headers);
+    if (!headers.has('x-batch-validation')) {
+      headers.set('x-batch-validation', options?.batchValidation ?? 'strict');
+    }
+    const requestOptions = { ...options, headers };
+
     // The payload is the caller's: work on copies taken before anything is
     // awaited, so that it is neither changed nor read again later.
     const copies = payload.map((email) => ({ ...email }));
@@ -41,13 +47,7 @@ export class Batch {
     const data = await this.resend.post<CreateBatchSuccessResponse<Options>>(
       '/emails/batch',
       emails,
-      {
-        ...options,
-        headers: {
-          'x-batch-validation': options?.batchValidation ?? 'strict',
-          ...options?.headers,
-        },
-      },
+      requestOptions,
     );
 
     return data;
-- 
2.43.0


From 12310cfe0151a689a07e69a4b943e4026f77f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 6/8] fix: read a call's arguments when it is made, not after
 rendering or downloading

`broadcasts.create`, `broadcasts.update`, `emails.send` and
`emails.receiving.forward` read fields of their arguments (recipients, content,
the idempotency key) only after awaiting the React render or the download of the
message, so changing or reusing those objects meanwhile changed what was sent.
---
 src/broadcasts/broadcasts.ts      | 49 ++++++++++++++++---------------
 src/emails/emails.ts              |  3 +-
 src/emails/receiving/receiving.ts | 11 ++++---
 3 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/broadcasts/broadcasts.ts b/src/broadcasts/broadcasts.ts
index 4d8c2bd..138e1dd 100644
--- a/src/broadcasts/broadcasts.ts
+++ b/src/broadcasts/broadcasts.ts
@@ -54,25 +54,27 @@ export class Broadcasts {
     payload: CreateBroadcastOptions,
     options: CreateBroadcastRequestOptions = {},
   ): Promise<SendBroadcastResponse> {
-    const html = payload.react ? await render(payload.react) : payload.html;
+    const body = { ...payload };
+    const requestOptions = { ...options };
+    const html = body.react ? await render(body.react) : body.html;
 
     const data = await this.resend.post<SendBroadcastResponseSuccess>(
       '/broadcasts',
       {
-        name: payload.name,
-        segment_id: payload.segmentId,
-        audience_id: payload.audienceId,
-        preview_text: payload.previewText,
-        from: payload.from,
+        name: body.name,
+        segment_id: body.segmentId,
+        audience_id: body.audienceId,
+        preview_text: body.previewText,
+        from: body.from,
         html,
-        reply_to: payload.replyTo,
-        subject: payload.subject,
-        text: payload.text,
-        topic_id: payload.topicId,
-        send: payload.send,
-        scheduled_at: payload.scheduledAt,
+        reply_to: body.replyTo,
+        subject: body.subject,
+        text: body.text,
+        topic_id: body.topicId,
+        send: body.send,
+        scheduled_at: body.scheduledAt,
       },
-      options,
+      requestOptions,
     );
 
     return data;
@@ -149,21 +151,22 @@ export class Broadcasts {
     id: string,
     payload: UpdateBroadcastOptions,
   ): Promise<UpdateBroadcastResponse> {
-    const html = payload.react ? await render(payload.react) : payload.html;
+    const body = { ...payload };
+    const html = body.react ? await render(body.react) : body.html;
 
     const data = await this.resend.patch<UpdateBroadcastResponseSuccess>(
       `/broadcasts/${id}`,
       {
-        name: payload.name,
-        segment_id: payload.segmentId,
-        audience_id: payload.audienceId,
-        from: payload.from,
+        name: body.name,
+        segment_id: body.segmentId,
+        audience_id: body.audienceId,
+        from: body.from,
         html,
-        text: payload.text,
-        subject: payload.subject,
-        reply_to: payload.replyTo,
-        preview_text: payload.previewText,
-        topic_id: payload.topicId,
+        text: body.text,
+        subject: body.subject,
+        reply_to: body.replyTo,
+        preview_text: body.previewText,
+        topic_id: body.topicId,
       },
     );
     return data;
diff --git a/src/emails/emails.ts b/src/emails/emails.ts
index ad6141c..7e786b6 100644
--- a/src/emails/emails.ts
+++ b/src/emails/emails.ts
@@ -60,6 +60,7 @@ export class Emails {
     options: CreateEmailRequestOptions = {},
   ): Promise<CreateEmailResponse> {
     const body: CreateEmailOptions = { ...payload };
+    const requestOptions = { ...options };
 
     if (payload.react) {
       body.html = await render(payload.react);
@@ -68,7 +69,7 @@ export class Emails {
     const data = await this.resend.post<CreateEmailResponseSuccess>(
       '/emails',
       parseEmailToApiOptions(body),
-      options,
+      requestOptions,
     );
 
     return data;
diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 1bf920c..6ca910c 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -62,6 +62,9 @@ export class Receiving {
   ): Promise<ForwardReceivingEmailResponse> {
     const { emailId, to, from } = options;
     const passthrough = options.passthrough !== false;
+    const text = 'text' in options ? options.text : undefined;
+    const html = 'html' in options ? options.html : undefined;
+    const sendOptions = { ...requestOptions };
 
     const emailResponse = await this.get(emailId);
 
@@ -85,7 +88,7 @@ export class Receiving {
           from,
           subject: originalSubject,
         },
-        requestOptions,
+        sendOptions,
       );
     }
 
@@ -99,10 +102,10 @@ export class Receiving {
         to,
         from,
         subject: forwardSubject,
-        text: 'text' in options ? options.text : undefined,
-        html: 'html' in options ? options.html : undefined,
+        text,
+        html,
       },
-      requestOptions,
+      sendOptions,
     );
   }
 
-- 
2.43.0


From 75a823fc1eac1940295f44266d2fa3f46968ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 7/8] fix: address contacts by email and templates by alias
 whatever characters they hold

Emails and aliases were put into the URL path as they are, so that `#`, `?`,
`/` or `%` in them made the request address another resource (a contact named
`a#b@example.com` was looked up, updated or deleted as contact `a`).
---
 src/common/utils/encode-path-segment.ts   | 11 +++++++++++
 src/contacts/contacts.ts                  | 23 +++++++++++++----------
 src/contacts/segments/contact-segments.ts | 10 +++++++---
 src/contacts/topics/contact-topics.ts     |  8 ++++++--
 src/templates/templates.ts                | 11 ++++++-----
 5 files changed, 43 insertions(+), 20 deletions(-)
 create mode 100644 src/common/utils/encode-path-segment.ts

diff --git a/src/common/utils/encode-path-segment.ts b/src/common/utils/encode-path-segment.ts
new file mode 100644
index 0000000..91705a0
--- /dev/null
+++ b/src/common/utils/encode-path-segment.ts
@@ -0,0 +1,11 @@
+/**
+ * Encodes a value chosen by the user (an email address, an alias) so that it
+ * stays one segment of a URL path: `/`, `?`, `#` and `%` must not be read as
+ * URL syntax. Characters that are legal in a segment, like `@`, are kept.
+ */
+export function encodePathSegment(value: string | null | undefined): string {
+  return encodeURIComponent(value ?? '').replace(
+    /%(?:24|26|2B|2C|3A|3B|3D|40)/g,
+    decodeURIComponent,
+  );
+}
diff --git a/src/contacts/contacts.ts b/src/contacts/contacts.ts
index 8882444..925ce4f 100644
--- a/src/contacts/contacts.ts
+++ b/src/contacts/contacts.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../common/utils/build-pagination-query';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import type { Resend } from '../resend';
 import { ContactImports } from './imports/contact-imports';
 import type {
@@ -116,7 +117,9 @@ export class Contacts {
 
   async get(options: GetContactOptions): Promise<GetContactResponse> {
     if (typeof options === 'string') {
-      return this.resend.get<GetContactResponseSuccess>(`/contacts/${options}`);
+      return this.resend.get<GetContactResponseSuccess>(
+        `/contacts/${encodePathSegment(options)}`,
+      );
     }
 
     if (!options.id && !options.email) {
@@ -133,12 +136,12 @@ export class Contacts {
 
     if (!options.audienceId) {
       return this.resend.get<GetContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       );
     }
 
     return this.resend.get<GetContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
     );
   }
 
@@ -157,7 +160,7 @@ export class Contacts {
 
     if (!options.audienceId) {
       const data = await this.resend.patch<UpdateContactResponseSuccess>(
-        `/contacts/${options?.email ? options?.email : options?.id}`,
+        `/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
         {
           unsubscribed: options.unsubscribed,
           first_name: options.firstName,
@@ -169,7 +172,7 @@ export class Contacts {
     }
 
     const data = await this.resend.patch<UpdateContactResponseSuccess>(
-      `/audiences/${options.audienceId}/contacts/${options?.email ? options?.email : options?.id}`,
+      `/audiences/${options.audienceId}/contacts/${encodePathSegment(options?.email ? options?.email : options?.id)}`,
       {
         unsubscribed: options.unsubscribed,
         first_name: options.firstName,
@@ -183,7 +186,7 @@ export class Contacts {
   async remove(payload: RemoveContactOptions): Promise<RemoveContactsResponse> {
     if (typeof payload === 'string') {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload}`,
+        `/contacts/${encodePathSegment(payload)}`,
       );
     }
 
@@ -201,14 +204,14 @@ export class Contacts {
 
     if (!payload.audienceId) {
       return this.resend.delete<RemoveContactsResponseSuccess>(
-        `/contacts/${payload?.email ? payload?.email : payload?.id}`,
+        `/contacts/${encodePathSegment(payload?.email ? payload?.email : payload?.id)}`,
       );
     }
 
     return this.resend.delete<RemoveContactsResponseSuccess>(
-      `/audiences/${payload.audienceId}/contacts/${
-        payload?.email ? payload?.email : payload?.id
-      }`,
+      `/audiences/${payload.audienceId}/contacts/${encodePathSegment(
+        payload?.email ? payload?.email : payload?.id,
+      )}`,
     );
   }
 }
diff --git a/src/contacts/segments/contact-segments.ts b/src/contacts/segments/contact-segments.ts
index 338e4da..eb2b525 100644
--- a/src/contacts/segments/contact-segments.ts
+++ b/src/contacts/segments/contact-segments.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   AddContactSegmentOptions,
@@ -35,7 +36,10 @@ export class ContactSegments {
     }
 
     const identifier = options.email ? options.email : options.contactId;
-    const url = buildPaginationUrl(`/contacts/${identifier}/segments`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/segments`,
+      options,
+    );
 
     const data = await this.resend.get<ListContactSegmentsResponseSuccess>(url);
     return data;
@@ -58,7 +62,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.post<AddContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${options.segmentId}`,
     );
   }
 
@@ -79,7 +83,7 @@ export class ContactSegments {
 
     const identifier = options.email ? options.email : options.contactId;
     return this.resend.delete<RemoveContactSegmentResponseSuccess>(
-      `/contacts/${identifier}/segments/${options.segmentId}`,
+      `/contacts/${encodePathSegment(identifier)}/segments/${options.segmentId}`,
     );
   }
 }
diff --git a/src/contacts/topics/contact-topics.ts b/src/contacts/topics/contact-topics.ts
index 8ff1919..3bbe435 100644
--- a/src/contacts/topics/contact-topics.ts
+++ b/src/contacts/topics/contact-topics.ts
@@ -1,4 +1,5 @@
 import { buildPaginationUrl } from '../../common/utils/build-pagination-query';
+import { encodePathSegment } from '../../common/utils/encode-path-segment';
 import type { Resend } from '../../resend';
 import type {
   ListContactTopicsOptions,
@@ -31,7 +32,7 @@ export class ContactTopics {
 
     const identifier = payload.email ? payload.email : payload.id;
     return this.resend.patch<UpdateContactTopicsResponseSuccess>(
-      `/contacts/${identifier}/topics`,
+      `/contacts/${encodePathSegment(identifier)}/topics`,
       payload.topics,
     );
   }
@@ -52,7 +53,10 @@ export class ContactTopics {
     }
 
     const identifier = options.email ? options.email : options.id;
-    const url = buildPaginationUrl(`/contacts/${identifier}/topics`, options);
+    const url = buildPaginationUrl(
+      `/contacts/${encodePathSegment(identifier)}/topics`,
+      options,
+    );
 
     return this.resend.get<ListContactTopicsResponseSuccess>(url);
   }
diff --git a/src/templates/templates.ts b/src/templates/templates.ts
index 2e232bd..baed3f9 100644
--- a/src/templates/templates.ts
+++ b/src/templates/templates.ts
@@ -1,4 +1,5 @@
 import type { PaginationOptions } from '../common/interfaces';
+import { encodePathSegment } from '../common/utils/encode-path-segment';
 import { getPaginationQueryProperties } from '../common/utils/get-pagination-query-properties';
 import { parseTemplateToApiOptions } from '../common/utils/parse-template-to-api-options';
 import { render } from '../render';
@@ -65,14 +66,14 @@ export class Templates {
 
   async remove(identifier: string): Promise<RemoveTemplateResponse> {
     const data = await this.resend.delete<RemoveTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
 
   async get(identifier: string): Promise<GetTemplateResponse> {
     const data = await this.resend.get<GetTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
     );
     return data;
   }
@@ -87,7 +88,7 @@ export class Templates {
     identifier: string,
   ): ChainableTemplateResult<DuplicateTemplateResponse> {
     const promiseDuplicate = this.resend.post<DuplicateTemplateResponseSuccess>(
-      `/templates/${identifier}/duplicate`,
+      `/templates/${encodePathSegment(identifier)}/duplicate`,
     );
     return new ChainableTemplateResult(
       promiseDuplicate,
@@ -97,7 +98,7 @@ export class Templates {
 
   async publish(identifier: string): Promise<PublishTemplateResponse> {
     const data = await this.resend.post<PublishTemplateResponseSuccess>(
-      `/templates/${identifier}/publish`,
+      `/templates/${encodePathSegment(identifier)}/publish`,
     );
     return data;
   }
@@ -107,7 +108,7 @@ export class Templates {
     payload: UpdateTemplateOptions,
   ): Promise<UpdateTemplateResponse> {
     const data = await this.resend.patch<UpdateTemplateResponseSuccess>(
-      `/templates/${identifier}`,
+      `/templates/${encodePathSegment(identifier)}`,
       parseTemplateToApiOptions(payload),
     );
     return data;
-- 
2.43.0


From 3e795f6f38e4437bcca6c69c922e849090cb8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 8/8] fix: release the connection of a raw email download that
 was refused

---
 src/emails/receiving/receiving.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emails/receiving/receiving.ts b/src/emails/receiving/receiving.ts
index 6ca910c..39a0f42 100644
--- a/src/emails/receiving/receiving.ts
+++ b/src/emails/receiving/receiving.ts
@@ -134,6 +134,8 @@ export class Receiving {
       const rawResponse = await fetch(email.raw.download_url);
 
       if (!rawResponse.ok) {
+        // An unread body would keep its connection occupied.
+        rawResponse.body?.cancel().catch(() => {});
         return {
           data: null,
           error: {
@@ -236,6 +238,8 @@ export class Receiving {
       const rawResponse = await fetch(email.raw.download_url);
 
       if (!rawResponse.ok) {
+        // An unread body would keep its connection occupied.
+        rawResponse.body?.cancel().catch(() => {});
         return {
           data: null,
           error: {
-- 
2.43.0

