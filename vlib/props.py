"""What decides each property: the functions whose contracts carry it, per configuration, and the oracle targets."""

CORE_FIELDS = ['fields__' + n for n in 'date from sender reply_to to cc bcc message_id subject comments in_reply_to references keywords unknown'.split()]
RESENT = ['fields__resent_' + n for n in 'date from sender to cc bcc message_id'.split()]
MIME_FIELDS = ['mime_fields__' + n for n in 'mime_version content_type content_transfer_encoding content_id content_description content_disposition'.split()]
MSG = ['message__line', 'message__check_line', 'message__body', 'message__body_lines', 'message__parse_message']

# roots: functions verified together with everything they call (cone) or alone
PROPS = {
    'C01': dict(mode='safety', roots={'default': '*', 'all': '*'}),
    'C02': dict(mode='safety', roots={'default': '*', 'all': '*'}),
    'C03': dict(mode='full', cone=False, roots={'default': MSG + ['combinators__tag', 'Email__parse'], 'all': MSG + ['combinators__tag', 'Email__parse']}),
    'C04': dict(mode='full', cone=False, roots={'default': ['Email__parse', 'message__parse_message', 'fields__fields'], 'all': ['Email__parse', 'message__parse_message', 'fields__fields']}),
    'C05': dict(mode='full', cone=False, roots={'default': CORE_FIELDS + RESENT + ['fields__fields', 'fields__received', 'fields__return_path', 'combinators__tag', 'combinators__tag_no_case', 'combinators__take_while1'],
                                                'all': CORE_FIELDS + RESENT + MIME_FIELDS + ['fields__fields', 'fields__received', 'fields__return_path', 'combinators__tag', 'combinators__tag_no_case', 'combinators__take_while1']}),
    'C06': dict(mode='full', cone=True, roots={'default': ['common__phrase', 'common__word', 'common__dot_atom', 'common__dot_atom_text', 'quoted_string__quoted_string', 'whitespaces__cfws', 'whitespaces__fws', 'whitespaces__comment'],
                                               'all': ['common__phrase', 'common__word', 'common__dot_atom', 'common__dot_atom_text', 'quoted_string__quoted_string', 'whitespaces__cfws', 'whitespaces__fws', 'whitespaces__comment']}),
    'C07': dict(mode='full', cone=True, roots={c: ['address__address_list', 'address__mailbox_list', 'fields__from', 'fields__sender', 'fields__reply_to', 'fields__to', 'fields__cc', 'fields__bcc'] for c in ('default', 'all')}),
    'C08': dict(mode='full', cone=True, roots={'default': ['time__date_time', 'fields__date', 'fields__resent_date']}),
    'C09': dict(mode='full', cone=True, roots={'default': ['address__message_id', 'fields__message_id', 'fields__in_reply_to', 'fields__references'], 'all': ['address__message_id', 'fields__message_id', 'fields__in_reply_to', 'fields__references']}),
    'C10': dict(mode='full', cone=True, roots={'all': ['base64__decode_base64', 'base64__encode_base64']}),
    'C11': dict(mode='full', cone=True, roots={'all': ['quoted_printables__decode_qp', 'quoted_printables__decode_header_qp', 'quoted_printables__encode_qp']}),
    'C12': dict(mode='full', cone=True, roots={'all': ['encoded_headers__encoded_word', 'common__mime_unstructured', 'common__phrase', 'fields__subject', 'fields__comments', 'fields__unknown']}),
    'C13': dict(mode='full', cone=True, roots={'all': ['percent_encoding__collect_parameters', 'mime_fields__content_type', 'mime_fields__content_disposition']}),
    'C14': dict(mode='full', cone=True, roots={'all': MIME_FIELDS + ['entity__header_part', 'Email__parse', 'ContentType__is_composite_type']}),
    'C15': dict(mode='full', cone=True, roots={'all': ['multipart__parse_multipart']}),
    'C16': dict(mode='full', cone=True, roots={'all': ['entity__raw_entity', 'entity__decode_value', 'Email__parse']}),
    'C17': dict(mode='full', cone=True, roots={'default': ['string__add_string', 'string__add_str']}),
    'C18': dict(mode='full', cone=True, roots={'default': ['common__unstructured', 'fields__subject', 'fields__comments', 'fields__unknown'], 'all': ['common__unstructured']}),
    'C19': dict(mode='full', cone=True, roots={'default': ['fields__fields', 'fields__trace'], 'all': ['fields__trace'] + RESENT}),
    'C20': dict(mode='full', cone=True, roots={'all': ['entity__entity', 'RawEntity__parse']}),
}

MIME_ONLY = ('C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C20')
NOT_PROVED = ()


def LEVELS(pid):
    if pid in NOT_PROVED:
        return 'exploration', 'Bounded: the real code is run against the executable reading of the specification on enumerated and generated inputs; the proof of these functions is not finished.'
    return 'proof', ('Unbounded proof of every function under contract in the extracted code; assumes the contracts listed in the evidence (std, textcode) and the extraction. '
                     'A function that cannot be processed on a changed tree falls back to the bounded oracle, reported as such.')


def THEOREMS(pid):
    out = []
    import re
    from . import gen
    for cfg in PROPS[pid]['roots']:
        if PROPS[pid]['mode'] == 'full':
            out += ['%s: theorem %s' % (cfg, x) for x in re.findall(r'pub proof fn (C\d\d_\w+)', gen.theorem_texts(set(gen.CONFIGS[cfg])).get(pid, ''))]
    for cfg, roots in PROPS[pid]['roots'].items():
        if roots == '*':
            out.append('%s/safety: every function under contract' % cfg)
        else:
            out += ['%s/full: contract of %s' % (cfg, r) for r in roots]
    return out
