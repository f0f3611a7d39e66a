// ---- header fields ----

inline fn line_end<T>(r: S, v: T) -> Option<(S, T)> { let (e, _x) <- sp_tag(r, b"\r\n"); Some((e, v)) }

spec fn sp_h_date(s: S) -> Option<(S, VDateTime)> { let (a, _x) <- sp_ci(s, b"Date:"); let (b, v) <- sp_date_time(a); line_end(b, v) }
spec fn sp_h_from(s: S) -> Option<(S, Seq<VMailbox>)> { let (a, _x) <- sp_ci(s, b"From:"); let (b, v) <- sp_mailbox_list(a); line_end(b, v) }
spec fn sp_h_sender(s: S) -> Option<(S, VMailbox)> { let (a, _x) <- sp_ci(s, b"Sender:"); let (b, v) <- sp_mailbox(a); line_end(b, v) }
spec fn sp_h_reply_to(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"Reply-To:"); let (b, v) <- sp_address_list(a); line_end(b, v) }
spec fn sp_h_to(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"To:"); let (b, v) <- sp_address_list(a); line_end(b, v) }
spec fn sp_h_cc(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"Cc:"); let (b, v) <- sp_address_list(a); line_end(b, v) }
spec fn sp_h_bcc(s: S) -> Option<(S, Seq<VAddress>)> {
    let (a, _x) <- sp_ci(s, b"Bcc:");
    match sp_address_list(a) {
        Some((b, v)) => line_end(b, v),
        None => { let (b, _x) <- sp_cfws(a); line_end(b, Seq::empty()) }
    }
}
spec fn sp_h_message_id(s: S) -> Option<(S, (S, S))> { let (a, _x) <- sp_ci(s, b"Message-ID:"); let (b, v) <- sp_message_id(a); line_end(b, v) }
spec fn sp_h_in_reply_to(s: S) -> Option<(S, Seq<(S, S)>)> { let (a, _x) <- sp_ci(s, b"In-Reply-To:"); let (b, v) <- sp_ids(a); line_end(b, v) }
spec fn sp_h_references(s: S) -> Option<(S, Seq<(S, S)>)> { let (a, _x) <- sp_ci(s, b"References:"); let (b, v) <- sp_ids(a); line_end(b, v) }

//@if mime
inline fn sp_text(s: S) -> Option<(S, S)> { sp_mime_unstructured(s) }
//@else
inline fn sp_text(s: S) -> Option<(S, S)> { sp_unstructured(s) }
//@end
//@if unrecognized-headers
inline fn sp_unknown_text(s: S) -> Option<(S, S)> { sp_mime_unstructured(s) }
//@else
inline fn sp_unknown_text(s: S) -> Option<(S, S)> { sp_unstructured(s) }
//@end

spec fn sp_h_subject(s: S) -> Option<(S, S)> { let (a, _x) <- sp_ci(s, b"Subject:"); let (b, v) <- sp_text(a); line_end(b, v) }
spec fn sp_h_comments(s: S) -> Option<(S, S)> { let (a, _x) <- sp_ci(s, b"Comments:"); let (b, v) <- sp_text(a); line_end(b, v) }

spec fn l_keywords(s: S, acc: Seq<Seq<S>>) -> (S, Seq<Seq<S>>) decreases s.len()
{
    if pfx(s, b",") {
        match sp_phrase(s.skip(1)) { Some((r, v)) => if r.len() < s.len() { l_keywords(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
    } else { (s, acc) }
}

spec fn sp_h_keywords(s: S) -> Option<(S, Seq<Seq<S>>)> {
    let (a, _x) <- sp_ci(s, b"Keywords:");
    let (b, v) <- sp_phrase(a);
    let c = l_keywords(b, Seq::empty().push(v));
    line_end(c.0, c.1)
}

spec fn sp_h_unknown(s: S) -> Option<(S, (S, S))> {
    let (a, n) <- sp_tw1(Cls::Ftext, s);
    let (b, _x) <- sp_tag(a, b":");
    let (c, v) <- sp_unknown_text(b);
    line_end(c, (n, v))
}

// ---- trace ----

enum VReceivedToken { Word(S), Addr(VEmailAddress), Domain(S) }
enum VTraceField { Date(VDateTime), From(Seq<VMailbox>), Sender(VMailbox), To(Seq<VAddress>), Cc(Seq<VAddress>), Bcc(Seq<VAddress>), MessageId((S, S)) }

spec fn sp_r_date(s: S) -> Option<(S, VDateTime)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_date(a) }
spec fn sp_r_from(s: S) -> Option<(S, Seq<VMailbox>)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_from(a) }
spec fn sp_r_sender(s: S) -> Option<(S, VMailbox)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_sender(a) }
spec fn sp_r_to(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_to(a) }
spec fn sp_r_cc(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_cc(a) }
spec fn sp_r_bcc(s: S) -> Option<(S, Seq<VAddress>)> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_bcc(a) }
spec fn sp_r_message_id(s: S) -> Option<(S, (S, S))> { let (a, _x) <- sp_ci(s, b"Resent-"); sp_h_message_id(a) }

spec fn sp_empty_path(s: S) -> Option<(S, ())> {
    let (a, _x) <- sp_tag(ocfws(s), b"<");
    let (b, _x) <- sp_tag(ocfws(a), b">");
    Some((ocfws(b), ()))
}

spec fn sp_h_return_path(s: S) -> Option<(S, Option<VEmailAddress>)> {
    let (a, _x) <- sp_ci(s, b"Return-Path:");
    match sp_angle_addr(a) {
        Some((b, v)) => line_end(b, Some(v)),
        None => { let (b, _x) <- sp_empty_path(a); line_end(b, None) }
    }
}

// a token of a Received header: a domain when that reads more text than a word does
spec fn sp_token(s: S) -> Option<(S, VReceivedToken)> {
    match sp_word(s) {
        Some((r, w)) => match sp_domain(s) {
            Some((q, d)) => if d.len() > w.len() { Some((q, VReceivedToken::Domain(d))) } else { Some((r, VReceivedToken::Word(w))) },
            None => Some((r, VReceivedToken::Word(w))),
        },
        None => match sp_angle_addr(s) {
            Some((r, a)) => Some((r, VReceivedToken::Addr(a))),
            None => match sp_addr_spec(s) {
                Some((r, a)) => Some((r, VReceivedToken::Addr(a))),
                None => match sp_domain(s) { Some((r, d)) => Some((r, VReceivedToken::Domain(d))), None => None },
            },
        },
    }
}

spec fn l_tokens(s: S, acc: Seq<VReceivedToken>) -> (S, Seq<VReceivedToken>) decreases s.len()
{
    match sp_token(s) { Some((r, v)) => if r.len() < s.len() { l_tokens(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

spec fn sp_h_received(s: S) -> Option<(S, (Seq<VReceivedToken>, VDateTime))> {
    let (a, _x) <- sp_ci(s, b"Received:");
    let t = l_tokens(a, Seq::empty());
    let (b, _x) <- sp_tag(t.0, b";");
    let (c, d) <- sp_date_time(b);
    line_end(c, (t.1, d))
}

spec fn l_received(s: S, acc: Seq<(Seq<VReceivedToken>, VDateTime)>) -> (S, Seq<(Seq<VReceivedToken>, VDateTime)>) decreases s.len()
{
    match sp_h_received(s) { Some((r, v)) => if r.len() < s.len() { l_received(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

inline fn trace_from(s: S, p: Option<Option<VEmailAddress>>) -> Option<(S, (Option<Option<VEmailAddress>>, Seq<(Seq<VReceivedToken>, VDateTime)>))> {
    let (a, v) <- sp_h_received(s);
    let b = l_received(a, Seq::empty().push(v));
    Some((b.0, (p, b.1)))
}

spec fn sp_trace(s: S) -> Option<(S, (Option<Option<VEmailAddress>>, Seq<(Seq<VReceivedToken>, VDateTime)>))> {
    match sp_h_return_path(s) { Some((r, p)) => trace_from(r, Some(p)), None => trace_from(s, None) }
}

spec fn sp_resent(s: S) -> Option<(S, VTraceField)> {
    match sp_r_date(s) { Some((r, v)) => Some((r, VTraceField::Date(v))), None =>
    match sp_r_from(s) { Some((r, v)) => Some((r, VTraceField::From(v))), None =>
    match sp_r_sender(s) { Some((r, v)) => Some((r, VTraceField::Sender(v))), None =>
    match sp_r_to(s) { Some((r, v)) => Some((r, VTraceField::To(v))), None =>
    match sp_r_cc(s) { Some((r, v)) => Some((r, VTraceField::Cc(v))), None =>
    match sp_r_bcc(s) { Some((r, v)) => Some((r, VTraceField::Bcc(v))), None =>
    match sp_r_message_id(s) { Some((r, v)) => Some((r, VTraceField::MessageId(v))), None => None }}}}}}}
}

spec fn l_resent(s: S, acc: Seq<VTraceField>) -> (S, Seq<VTraceField>) decreases s.len()
{
    match sp_resent(s) { Some((r, v)) => if r.len() < s.len() { l_resent(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

// ---- the header section ----

struct VUnknown { name: S, value: S }
struct VTrace { return_path: Option<Option<VEmailAddress>>, received: Seq<(Seq<VReceivedToken>, VDateTime)>, fields: Seq<VTraceField> }
enum VField {
    Date(VDateTime), From(Seq<VMailbox>), Sender(VMailbox), ReplyTo(Seq<VAddress>), To(Seq<VAddress>), Cc(Seq<VAddress>), Bcc(Seq<VAddress>),
    MessageId((S, S)), InReplyTo(Seq<(S, S)>), References(Seq<(S, S)>), Subject(S), Comments(S), Keywords(Seq<Seq<S>>),
//@if mime
    MimeVersion((int, int)), ContentType(VContentType), ContentTransferEncoding(VEncoding), ContentId((S, S)), ContentDescription(S), ContentDisposition(VDisposition),
//@end
    Trace(VTrace), Unknown(VUnknown),
}

spec fn sp_field(s: S) -> Option<(S, VField)> {
    match sp_h_date(s) { Some((r, v)) => Some((r, VField::Date(v))), None =>
    match sp_h_from(s) { Some((r, v)) => Some((r, VField::From(v))), None =>
    match sp_h_sender(s) { Some((r, v)) => Some((r, VField::Sender(v))), None =>
    match sp_h_reply_to(s) { Some((r, v)) => Some((r, VField::ReplyTo(v))), None =>
    match sp_h_to(s) { Some((r, v)) => Some((r, VField::To(v))), None =>
    match sp_h_cc(s) { Some((r, v)) => Some((r, VField::Cc(v))), None =>
    match sp_h_bcc(s) { Some((r, v)) => Some((r, VField::Bcc(v))), None =>
    match sp_h_message_id(s) { Some((r, v)) => Some((r, VField::MessageId(v))), None =>
    match sp_h_in_reply_to(s) { Some((r, v)) => Some((r, VField::InReplyTo(v))), None =>
    match sp_h_references(s) { Some((r, v)) => Some((r, VField::References(v))), None =>
    match sp_h_subject(s) { Some((r, v)) => Some((r, VField::Subject(v))), None =>
    match sp_h_comments(s) { Some((r, v)) => Some((r, VField::Comments(v))), None =>
//@if mime
    match sp_h_mime_version(s) { Some((r, v)) => Some((r, VField::MimeVersion(v))), None =>
    match sp_h_content_type(s) { Some((r, v)) => Some((r, VField::ContentType(v))), None =>
    match sp_h_content_transfer_encoding(s) { Some((r, v)) => Some((r, VField::ContentTransferEncoding(v))), None =>
    match sp_h_content_id(s) { Some((r, v)) => Some((r, VField::ContentId(v))), None =>
    match sp_h_content_description(s) { Some((r, v)) => Some((r, VField::ContentDescription(v))), None =>
    match sp_h_content_disposition(s) { Some((r, v)) => Some((r, VField::ContentDisposition(v))), None =>
//@end
    match sp_h_keywords(s) { Some((r, v)) => Some((r, VField::Keywords(v))), None =>
    match sp_h_unknown(s) { Some((r, v)) => Some((r, VField::Unknown(VUnknown { name: v.0, value: v.1 }))), None => None
//@if mime
    }}}}}}
//@end
    }}}}}}}}}}}}}}
}

spec fn l_traces(s: S, acc: Seq<VField>) -> (S, Seq<VField>) decreases s.len()
{
    match sp_trace(s) {
        Some((r, t)) => {
            let a = l_resent(r, Seq::empty());
            if a.0.len() < s.len() { l_traces(a.0, acc.push(VField::Trace(VTrace { return_path: t.0, received: t.1, fields: a.1 }))) } else { (s, acc) }
        }
        None => (s, acc),
    }
}

spec fn l_fields(s: S, acc: Seq<VField>) -> (S, Seq<VField>) decreases s.len()
{
    match sp_field(s) { Some((r, v)) => if r.len() < s.len() { l_fields(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

spec fn sp_fields(s: S) -> Option<(S, Seq<VField>)> {
    let a = l_traces(s, Seq::empty());
    Some(l_fields(a.0, a.1))
}

// ---- message ----

spec fn text_run(s: S, max: int) -> int decreases s.len()
{ if max > 0 && s.len() > 0 && cls(Cls::Text, s[0]) { 1 + text_run(s.skip(1), max - 1) } else { 0 } }

spec fn sp_line(s: S) -> Option<(S, S)> { Some((s.skip(text_run(s, 998)), s.take(text_run(s, 998)))) }
spec fn sp_check_line(s: S) -> Option<(S, ())> { Some((s.skip(text_run(s, 998)), ())) }

// s is a CRLF separated sequence of lines of at most 998 text octets
spec fn l_lines_ok(s: S) -> bool decreases s.len()
{
    let r = s.skip(text_run(s, 998));
    match sp_tag(r, b"\r\n") { Some((a, _x)) => a.len() < s.len() && l_lines_ok(a), None => r.len() == 0 }
}

spec fn l_lines(s: S, acc: Seq<S>) -> Option<Seq<S>> decreases s.len()
{
    let n = text_run(s, 998);
    match sp_tag(s.skip(n), b"\r\n") {
        Some((a, _x)) => if a.len() < s.len() { l_lines(a, acc.push(s.take(n))) } else { None },
        None => if s.skip(n).len() == 0 { Some(acc.push(s.take(n))) } else { None },
    }
}

spec fn sp_body_lines(s: S) -> Option<Seq<S>> {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match sp_tag(s, b"\r\n") { Some((a, _x)) => l_lines(a, Seq::empty()), None => None }
    }
}

spec fn sp_body(s: S) -> Option<Option<S>> {
    if s.len() == 0 { Some(None) } else {
        match sp_tag(s, b"\r\n") { Some((a, _x)) => if l_lines_ok(a) { Some(Some(a)) } else { None }, None => None }
    }
}

spec fn sp_parse_message(s: S) -> Option<(Seq<VField>, Option<S>)> {
    let (r, f) <- sp_fields(s);
//@if mime
    if r.len() == 0 { Some((f, None)) } else {
        match sp_tag(r, b"\r\n") { Some((a, _x)) => Some((f, Some(a))), None => None }
    }
//@else
    match sp_body(r) { Some(b) => Some((f, b)), None => None }
//@end
}

// ---- the e-mail ----

struct VHeaders {
    from: Option<Seq<VMailbox>>, sender: Option<VMailbox>, subject: Option<S>, date: Option<VDateTime>,
    to: Option<Seq<VAddress>>, cc: Option<Seq<VAddress>>, bcc: Option<Seq<VAddress>>,
    message_id: Option<(S, S)>, in_reply_to: Option<Seq<(S, S)>>, references: Option<Seq<(S, S)>>, reply_to: Option<Seq<VAddress>>,
    comments: Seq<S>, keywords: Seq<Seq<S>>,
    trace: Seq<(Option<Option<VEmailAddress>>, Seq<(Seq<VReceivedToken>, VDateTime)>, Seq<VTraceField>)>,
//@if mime
    mime_version: Option<(int, int)>, content_type: Option<VContentType>, content_transfer_encoding: Option<VEncoding>,
    content_id: Option<(S, S)>, content_description: Option<S>, content_disposition: Option<VDisposition>,
//@end
    unknown_fields: Seq<(S, S)>,
}

inline fn no_headers() -> VHeaders {
    VHeaders { from: None, sender: None, subject: None, date: None, to: None, cc: None, bcc: None, message_id: None, in_reply_to: None, references: None, reply_to: None,
        comments: Seq::empty(), keywords: Seq::empty(), trace: Seq::empty(),
//@if mime
        mime_version: None, content_type: None, content_transfer_encoding: None, content_id: None, content_description: None, content_disposition: None,
//@end
        unknown_fields: Seq::empty() }
}

// one more field: None if the header may not be repeated
spec fn add_field(h: VHeaders, f: VField) -> Option<VHeaders> {
    match f {
        VField::From(v) => if h.from == None { Some(VHeaders { from: Some(v), ..h }) } else { None },
        VField::Sender(v) => if h.sender == None { Some(VHeaders { sender: Some(v), ..h }) } else { None },
        VField::Subject(v) => if h.subject == None { Some(VHeaders { subject: Some(v), ..h }) } else { None },
        VField::Date(v) => if h.date == None { Some(VHeaders { date: Some(v), ..h }) } else { None },
        VField::To(v) => if h.to == None { Some(VHeaders { to: Some(v), ..h }) } else { None },
        VField::Cc(v) => if h.cc == None { Some(VHeaders { cc: Some(v), ..h }) } else { None },
        VField::Bcc(v) => if h.bcc == None { Some(VHeaders { bcc: Some(v), ..h }) } else { None },
        VField::MessageId(v) => if h.message_id == None { Some(VHeaders { message_id: Some(v), ..h }) } else { None },
        VField::InReplyTo(v) => if h.in_reply_to == None { Some(VHeaders { in_reply_to: Some(v), ..h }) } else { None },
        VField::References(v) => if h.references == None { Some(VHeaders { references: Some(v), ..h }) } else { None },
        VField::ReplyTo(v) => if h.reply_to == None { Some(VHeaders { reply_to: Some(v), ..h }) } else { None },
        VField::Comments(v) => Some(VHeaders { comments: h.comments.push(v), ..h }),
        VField::Keywords(v) => Some(VHeaders { keywords: h.keywords + v, ..h }),
        VField::Trace(v) => Some(VHeaders { trace: h.trace.push((v.return_path, v.received, v.fields)), ..h }),
//@if mime
        VField::MimeVersion(v) => if h.mime_version == None { Some(VHeaders { mime_version: Some(v), ..h }) } else { None },
        VField::ContentType(v) => if h.content_type == None { Some(VHeaders { content_type: Some(v), ..h }) } else { None },
        VField::ContentTransferEncoding(v) => if h.content_transfer_encoding == None { Some(VHeaders { content_transfer_encoding: Some(v), ..h }) } else { None },
        VField::ContentId(v) => if h.content_id == None { Some(VHeaders { content_id: Some(v), ..h }) } else { None },
        VField::ContentDescription(v) => if h.content_description == None { Some(VHeaders { content_description: Some(v), ..h }) } else { None },
        VField::ContentDisposition(v) => if h.content_disposition == None { Some(VHeaders { content_disposition: Some(v), ..h }) } else { None },
//@end
        VField::Unknown(v) => Some(VHeaders { unknown_fields: h.unknown_fields.push((v.name, v.value)), ..h }),
    }
}

spec fn l_headers(fs: Seq<VField>, h: VHeaders) -> Option<VHeaders> decreases fs.len()
{ if fs.len() == 0 { Some(h) } else { match add_field(h, fs[0]) { Some(g) => l_headers(fs.skip(1), g), None => None } } }

struct VEmail {
    from: Seq<VMailbox>, sender: VMailbox, subject: Option<S>, date: VDateTime,
    to: Option<Seq<VAddress>>, cc: Option<Seq<VAddress>>, bcc: Option<Seq<VAddress>>,
    message_id: Option<(S, S)>, in_reply_to: Option<Seq<(S, S)>>, references: Option<Seq<(S, S)>>, reply_to: Option<Seq<VAddress>>,
    comments: Seq<S>, keywords: Seq<Seq<S>>,
    trace: Seq<(Option<Option<VEmailAddress>>, Seq<(Seq<VReceivedToken>, VDateTime)>, Seq<VTraceField>)>,
//@if mime
    mime_entity: VRawEntity,
//@else
    body: Option<S>,
//@end
    unknown_fields: Seq<(S, S)>,
}

// the Sender header, or else the single author
inline fn the_sender(h: VHeaders, from: Seq<VMailbox>) -> Option<VMailbox> {
    match h.sender { Some(x) => Some(x), None => if from.len() == 1 { Some(from[0]) } else { None } }
}

spec fn make_email(h: VHeaders, body: Option<S>) -> Option<VEmail> {
    match h.from { None => None, Some(from) => match h.date { None => None, Some(date) => match the_sender(h, from) { None => None, Some(sender) =>
//@if mime
        match body_value(h, body) { None => None, Some(value) =>
//@end
        Some(VEmail { from: from, sender: sender, subject: h.subject, date: date, to: h.to, cc: h.cc, bcc: h.bcc,
            message_id: h.message_id, in_reply_to: h.in_reply_to, references: h.references, reply_to: h.reply_to,
            comments: h.comments, keywords: h.keywords, trace: h.trace,
//@if mime
            mime_entity: VRawEntity {
                mime_type: the_type(h).mime_type, subtype: the_type(h).subtype, parameters: the_type(h).parameters,
                description: h.content_description, id: h.content_id, disposition: h.content_disposition,
                value: value, additional_headers: Seq::empty() },
//@else
            body: body,
//@end
            unknown_fields: h.unknown_fields })
//@if mime
        }
//@end
    }}}
}

spec fn sp_email(s: S) -> Option<VEmail> {
    match sp_parse_message(s) {
        Some((f, b)) => match l_headers(f, no_headers()) { Some(h) => make_email(h, b), None => None },
        None => None,
    }
}
