// ---- views of the crate's own types ----
impl Sv for Day { type V = int; spec fn sv(&self) -> int { match self { Day::Monday => 0, Day::Tuesday => 1, Day::Wednesday => 2, Day::Thursday => 3, Day::Friday => 4, Day::Saturday => 5, Day::Sunday => 6 } } }
impl Sv for Month { type V = int; spec fn sv(&self) -> int { match self { Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6, Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12 } } }
impl Sv for Zone { type V = VZone; spec fn sv(&self) -> VZone { VZone { sign: self.sign, hour_offset: self.hour_offset as int, minute_offset: self.minute_offset as int } } }
impl Sv for Time { type V = VTime; spec fn sv(&self) -> VTime { VTime { hour: self.hour as int, minute: self.minute as int, second: self.second as int } } }
impl Sv for TimeWithZone { type V = VTimeWithZone; spec fn sv(&self) -> VTimeWithZone { VTimeWithZone { time: self.time.sv(), zone: self.zone.sv() } } }
impl Sv for Date { type V = VDate; spec fn sv(&self) -> VDate { VDate { day: self.day as int, month: self.month.sv(), year: self.year as int } } }
impl Sv for DateTime { type V = VDateTime; spec fn sv(&self) -> VDateTime { VDateTime { day_name: self.day_name.sv(), date: self.date.sv(), time: self.time.sv() } } }
impl<'a> Sv for EmailAddress<'a> { type V = VEmailAddress; spec fn sv(&self) -> VEmailAddress { VEmailAddress { local_part: self.local_part.sv(), domain: self.domain.sv() } } }
impl<'a> Sv for Mailbox<'a> { type V = VMailbox; spec fn sv(&self) -> VMailbox { VMailbox { name: self.name.sv(), address: self.address.sv() } } }
impl<'a> Sv for Address<'a> { type V = VAddress; spec fn sv(&self) -> VAddress { match self { Address::Mailbox(x) => VAddress::Mailbox(x.sv()), Address::Group(x) => VAddress::Group(x.sv()) } } }
impl<'a> Sv for ReceivedToken<'a> { type V = VReceivedToken; spec fn sv(&self) -> VReceivedToken { match self { ReceivedToken::Word(x) => VReceivedToken::Word(x.sv()), ReceivedToken::Addr(x) => VReceivedToken::Addr(x.sv()), ReceivedToken::Domain(x) => VReceivedToken::Domain(x.sv()) } } }
impl<'a> Sv for TraceField<'a> { type V = VTraceField; spec fn sv(&self) -> VTraceField { match self {
    TraceField::Date(x) => VTraceField::Date(x.sv()), TraceField::From(x) => VTraceField::From(x.sv()), TraceField::Sender(x) => VTraceField::Sender(x.sv()),
    TraceField::To(x) => VTraceField::To(x.sv()), TraceField::Cc(x) => VTraceField::Cc(x.sv()), TraceField::Bcc(x) => VTraceField::Bcc(x.sv()), TraceField::MessageId(x) => VTraceField::MessageId(x.sv()) } } }
impl<'a> Sv for Field<'a> { type V = VField; spec fn sv(&self) -> VField { match self {
    Field::Date(x) => VField::Date(x.sv()), Field::From(x) => VField::From(x.sv()), Field::Sender(x) => VField::Sender(x.sv()), Field::ReplyTo(x) => VField::ReplyTo(x.sv()),
    Field::To(x) => VField::To(x.sv()), Field::Cc(x) => VField::Cc(x.sv()), Field::Bcc(x) => VField::Bcc(x.sv()), Field::MessageId(x) => VField::MessageId(x.sv()),
    Field::InReplyTo(x) => VField::InReplyTo(x.sv()), Field::References(x) => VField::References(x.sv()), Field::Subject(x) => VField::Subject(x.sv()), Field::Comments(x) => VField::Comments(x.sv()),
    Field::Keywords(x) => VField::Keywords(x.sv()),
//@if mime
    Field::MimeVersion(a, b) => VField::MimeVersion((a.sv(), b.sv())),
    Field::ContentType { mime_type, subtype, parameters } => VField::ContentType(VContentType { mime_type: mime_type.sv(), subtype: subtype.sv(), parameters: parameters.sv() }),
    Field::ContentTransferEncoding(x) => VField::ContentTransferEncoding(x.sv()), Field::ContentId(x) => VField::ContentId(x.sv()),
    Field::ContentDescription(x) => VField::ContentDescription(x.sv()), Field::ContentDisposition(x) => VField::ContentDisposition(x.sv()),
//@end
    Field::Trace { return_path, received, fields } => VField::Trace(VTrace { return_path: return_path.sv(), received: received.sv(), fields: fields.sv() }),
    Field::Unknown { name, value } => VField::Unknown(VUnknown { name: name.sv(), value: value.sv() }) } } }
impl<'a> Sv for Email<'a> { type V = VEmail; spec fn sv(&self) -> VEmail { VEmail {
    from: self.from.sv(), sender: self.sender.sv(), subject: self.subject.sv(), date: self.date.sv(), to: self.to.sv(), cc: self.cc.sv(), bcc: self.bcc.sv(),
    message_id: self.message_id.sv(), in_reply_to: self.in_reply_to.sv(), references: self.references.sv(), reply_to: self.reply_to.sv(),
    comments: self.comments.sv(), keywords: self.keywords.sv(), trace: self.trace.sv(),
//@if mime
    mime_entity: self.mime_entity.sv(),
//@else
    body: self.body.sv(),
//@end
    unknown_fields: self.unknown_fields.sv() } } }
