impl<'a> Sv for ContentType<'a> { type V = VMime; spec fn sv(&self) -> VMime { match self { ContentType::Text => VMime::Text, ContentType::Image => VMime::Image, ContentType::Audio => VMime::Audio, ContentType::Video => VMime::Video, ContentType::Application => VMime::Application, ContentType::Message => VMime::Message, ContentType::Multipart => VMime::Multipart, ContentType::Unknown(x) => VMime::Unknown(x.sv()) } } }
impl<'a> Sv for ContentTransferEncoding<'a> { type V = VEncoding; spec fn sv(&self) -> VEncoding { match self { ContentTransferEncoding::SevenBit => VEncoding::SevenBit, ContentTransferEncoding::HeightBit => VEncoding::EightBit, ContentTransferEncoding::Binary => VEncoding::Binary, ContentTransferEncoding::QuotedPrintable => VEncoding::QuotedPrintable, ContentTransferEncoding::Base64 => VEncoding::Base64, ContentTransferEncoding::Unknown(x) => VEncoding::Unknown(x.sv()) } } }
impl<'a> Sv for DispositionType<'a> { type V = VDispositionType; spec fn sv(&self) -> VDispositionType { match self { DispositionType::Inline => VDispositionType::Inline, DispositionType::Attachment => VDispositionType::Attachment, DispositionType::Unknown(x) => VDispositionType::Unknown(x.sv()) } } }
impl<'a> Sv for Disposition<'a> { type V = VDisposition; spec fn sv(&self) -> VDisposition { VDisposition { disposition_type: self.disposition_type.sv(), filename: self.filename.sv(), creation_date: self.creation_date.sv(), modification_date: self.modification_date.sv(), read_date: self.read_date.sv(), unstructured: self.unstructured.sv() } } }
impl<'a> Sv for RawEntity<'a> { type V = VRawEntity; spec fn sv(&self) -> VRawEntity { VRawEntity { mime_type: self.mime_type.sv(), subtype: self.subtype.sv(), description: self.description.sv(), id: self.id.sv(), parameters: self.parameters.sv(), disposition: self.disposition.sv(), value: self.value.sv(), additional_headers: self.additional_headers.sv() } } }
impl<'a> Sv for Entity<'a> { type V = VEntity; spec fn sv(&self) -> VEntity { match self { Entity::Multipart { subtype, content } => VEntity::Multipart((subtype.sv(), content.sv())), Entity::Text { subtype, value } => VEntity::Text((subtype.sv(), value.sv())), Entity::Unknown => VEntity::Unknown } } }
