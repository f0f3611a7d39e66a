"""Contracts of the functions of the crate.

F(key, spec=NAME)  : ensures conf(ret, NAME(p1@)): Ok((rest, v)) exactly when NAME gives Some((rest, v)), Err exactly when None
prog               : 'strict' (on Ok the rest is shorter than the input) or 'weak' (not longer)
req/ens/inv/...    : further clauses; the ones named *_s belong to the safety contract as well (C01, C02)
loops              : one entry per loop of the lowered function, in order
T(f, args, out)    : the loop computes the specification function f: f(args) is the same before every iteration
                     and at exit equals out (the final values)
"""


def T(f, args, out):
    return (f, args.split(' '), out)


def table(feats):
    C = {}
    mime = 'mime' in feats

    def F(key, **kw):
        for k in ('req', 'req_s', 'ens', 'ens_s', 'reveal', 'reveal_s', 'proof', 'proof_s', 'use'):
            if isinstance(kw.get(k), str):
                kw[k] = [kw[k]]
        for l in kw.get('loops', []):
            for k, v in list(l.items()):
                if k != 'dec' and isinstance(v, (str, tuple)):
                    l[k] = [v]
        C[key] = kw

    def parse_loop(f, acc, out=None, **kw):
        """a loop consuming %input"""
        args = '%input.sv()' + ''.join(' %' + a + '.sv()' for a in acc)
        if out is None:
            out = '(%input.sv()' + ''.join(', %' + a + '.sv()' for a in acc) + ')'
        d = dict(tail=T(f, args, out), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()')
        for k, v in kw.items():
            if k in d and isinstance(d[k], list):
                d[k] = d[k] + (v if isinstance(v, list) else [v])
            else:
                d[k] = v
        return d

    # ---- combinators -----------------------------------------------------------------------
    F('combinators__tag', spec='sp_tag', spargs='p1@, p2@', prog='weak', req_s='valid_utf8(p2@)',
      ens_s=['ret is Ok ==> ret->Ok_0.0@.len() == p1@.len() - p2@.len()', 'ret is Ok && asc_s(p2@) ==> suf(p1@, ret->Ok_0.0@)'], proof_s='proof { suf_tag(p1@, p2@); }')
    F('combinators__tag_no_case', spec='sp_ci', spargs='p1@, p2@', prog='weak',
      req_s=['opp(p2@, p3@)', 'valid_utf8(p2@)', 'valid_utf8(p3@)'],
      ens_s='ret is Ok ==> ret->Ok_0.0@.len() == p1@.len() - p2@.len()',
      proof_s='proof { opp_is(p2@, p3@); }', proof='proof { ci_is(p1@, p2@); reveal(lower); }',
      loops=[dict(inv_s=['0 <= %i <= %i_end'], dec='%i_end - %i', sub={'i_end': 'p2@.len()'}),
             dict(sub={'idx_end': 'p2@.len()'}, inv_s=['0 <= %idx <= %idx_end'], inv=['forall|j: int| 0 <= j < %idx ==> #[trigger] lower(p1@[j]) == lower(p2@[j])'],
                  dec='%idx_end - %idx', body='proof { ci_at(p1@, p2@, %idx as int); }')])
    hi = 'asc(p0@) || (hi(p0@) && valid_utf8(p1@))'
    tw_loop = dict(sub={'i_end': 'p1@.len()'}, inv_s=['%i <= %i_end', '%i_end == p1@.len()', 'forall|j: int| 0 <= j < %i ==> cls(p0@, p1@[j])'], dec='%i_end - %i',
                   body_s=['proof { tw_at(p0@, p1@, %i as int); }'], end_s=['proof { tw_at(p0@, p1@, %i as int); }'])
    F('combinators__take_while', spec='sp_tw', spargs='p0@, p1@', prog='weak', req_s=hi, loops=[tw_loop],
      ens_s=['ret is Ok', 'hi(p0@) && valid_utf8(p1@) && ret is Ok ==> valid_utf8(ret->Ok_0.0@)'], proof_s=['proof { tw_at(p0@, p1@, 0); tw_all(p0@, p1@); }'])
    F('combinators__take_while1', spec='sp_tw1', spargs='p0@, p1@', prog='strict', req_s=hi, loops=[tw_loop],
      ens_s='hi(p0@) && valid_utf8(p1@) && ret is Ok ==> valid_utf8(ret->Ok_0.0@)',
      proof_s=['proof { tw_at(p0@, p1@, 0); tw_at(p0@, p1@, 1); tw_all(p0@, p1@); }'])
    for k in ('string__add_string', 'string__add_str'):
        F(k, ens=['final(p1).sv() == old(p1).sv() + p2.sv()'], use=['readable_axiom', 'adjacent_axiom', 'concat_valid'])

    # ---- whitespace ------------------------------------------------------------------------
    F('whitespaces__fws', spec='sp_fws', prog='strict')
    F('whitespaces__ccontent', spec='sp_ccontent', prog='strict')
    F('quoted_string__quoted_pair', nohide=True, spec='sp_quoted_pair', prog='strict', use=['ascii_valid', 'pfx_idx'])
    F('whitespaces__comment', spec='sp_comment', prog='strict', proof_s='let vx_n = p1.len();',
      loops=[parse_loop('l_comment', ['depth'], 'Some((%input.sv(), Seq::<u8>::empty()))', inv_s=['%input@.len() + %depth <= p1@.len()', '%input@.len() < p1@.len()'])])
    F('whitespaces__cfws__real_cfws', spec='sp_real_cfws', prog='strict', loops=[parse_loop('l_cfws', ['output'], inv_s=['%input@.len() < p1@.len()'])])
    F('whitespaces__cfws', spec='sp_cfws', prog='strict')
    F('quoted_string__quoted_string', spec='sp_quoted_string', prog='strict', loops=[parse_loop('l_qs', ['output'])])

    # ---- words -----------------------------------------------------------------------------
    F('common__atom', spec='sp_atom', prog='strict')
    F('common__dot_atom_text', spec='sp_dot_atom_text', prog='strict', use='ascii_valid', loops=[parse_loop('l_dot', ['output'], inv_s=['%input@.len() < p1@.len()'])])
    F('common__dot_atom', spec='sp_dot_atom', prog='strict')
    F('common__word', spec='sp_word', prog='strict')
    F('common__phrase', spec='sp_phrase', prog='strict', reveal='sp_phrase_word', loops=[parse_loop('l_phrase', ['words'], inv_s=['%input@.len() < p1@.len()'])])
    F('common__unstructured', spec='sp_unstructured', prog='weak',
      loops=[parse_loop('l_unstr', ['result']),
             dict(tail=T('l_wsp', '%input.sv()', '%input.sv()'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()')])

    # ---- addresses -------------------------------------------------------------------------
    F('address__message_id__no_fold_litteral', spec='sp_no_fold_literal', prog='strict')
    F('address__message_id', spec='sp_message_id', prog='strict', reveal='sp_id_right')
    F('address__addr_spec', spec='sp_addr_spec', prog='strict')
    F('address__angle_addr', spec='sp_angle_addr', prog='strict')
    F('address__name_addr', spec='sp_name_addr', prog='strict')
    F('address__local_part', spec='sp_local_part', prog='strict')
    F('address__domain', spec='sp_domain', prog='strict')
    F('address__domain_literal', spec='sp_domain_literal', prog='strict', loops=[parse_loop('l_dlit', ['output'])])
    F('address__mailbox', spec='sp_mailbox', prog='strict')
    F('address__mailbox_list', spec='sp_mailbox_list', prog='strict', loops=[parse_loop('l_mailboxes', ['mailboxes'], inv_s=['%input@.len() < p1@.len()'])])
    F('address__group', spec='sp_group', prog='strict')
    F('address__address', spec='sp_address', prog='strict')
    F('address__address_list', spec='sp_address_list', prog='strict', loops=[parse_loop('l_addresses', ['addresses'], inv_s=['%input@.len() < p1@.len()'])])

    # ---- dates -----------------------------------------------------------------------------
    F('character_sets__digit', spec='sp_digit', prog='strict', ens_s='ret is Ok ==> ret->Ok_0.1 <= 9')
    F('character_sets__two_digits', spec='sp_two_digits', prog='strict', ens_s='ret is Ok ==> ret->Ok_0.1 <= 99')
    F('time__day_name', spec='sp_day_name', prog='strict', reveal='lower')
    F('time__month', spec='sp_month', prog='strict', reveal='lower')
    F('time__day_of_week', spec='sp_day_of_week', prog='strict')
    F('time__year', spec='sp_year', prog='strict', use='run_digits')
    F('time__day', spec='sp_day', prog='strict')
    F('time__time_of_day', spec='sp_time_of_day', prog='strict')
    F('time__zone', spec='sp_zone', prog='strict')
    F('time__time', spec='sp_time', prog='strict')
    F('time__date', spec='sp_date', prog='strict')
    F('time__date_time', spec='sp_date_time', prog='strict')

    # ---- header fields ---------------------------------------------------------------------
    for n in ('date', 'from', 'sender', 'reply_to', 'to', 'cc', 'bcc', 'message_id', 'subject', 'comments'):
        F('fields__' + n, spec='sp_h_' + n, prog='strict')
    for n in ('in_reply_to', 'references'):
        F('fields__' + n, spec='sp_h_' + n, prog='strict', reveal='sp_ids', loops=[parse_loop('l_ids', ['results'])])
    F('fields__keywords', spec='sp_h_keywords', prog='strict', loops=[parse_loop('l_keywords', ['keywords'])])
    F('fields__unknown', spec='sp_h_unknown', prog='strict')
    for n in ('date', 'from', 'sender', 'to', 'cc', 'bcc', 'message_id'):
        F('fields__resent_' + n, spec='sp_r_' + n, prog='strict')
    F('fields__return_path__empty_path', spec='sp_empty_path', prog='strict')
    F('fields__return_path', spec='sp_h_return_path', prog='strict')
    F('fields__received', spec='sp_h_received', prog='strict', reveal='sp_token', loops=[parse_loop('l_tokens', ['results'])])
    F('fields__trace', spec='sp_trace', prog='strict', loops=[parse_loop('l_received', ['results'], inv_s=['%input@.len() < p1@.len()'])])
    F('fields__fields', spec='sp_fields', prog='weak', reveal=['sp_field', 'sp_resent'],
      loops=[parse_loop('l_traces', ['fields']),
             parse_loop('l_resent', ['trace_fields'], pre_s=['let ghost n1 = %input@.len();'], inv_s=['%input@.len() <= n1']),
             parse_loop('l_fields', ['fields'])])

    # ---- messages --------------------------------------------------------------------------
    line_loop = dict(sub={'i_end': '(if p1@.len() < 998 { p1@.len() as int } else { 998 })'}, inv_s=['%i <= %i_end', '%i_end <= p1@.len()', '%i_end <= 998', '%i_end == 998 || %i_end == p1@.len()', 'forall|j: int| 0 <= j < %i ==> cls(Cls::Text, p1@[j])'],
                     dec='%i_end - %i', body=['proof { line_at(p1@, %i as int); }'], end=['proof { line_at(p1@, %i as int); }'])
    F('message__line', spec='sp_line', prog='weak', loops=[line_loop], use='ascii_valid', proof=['proof { line_at(p1@, 0); line_all(p1@); }'],
      ens_s=['ret is Ok', 'ret is Ok ==> ret->Ok_0.0@ == p1@.skip(p1@.len() - ret->Ok_0.0@.len())'])
    F('message__check_line', spec='sp_check_line', prog='weak', loops=[dict(line_loop, body_s=['proof { suf_cut(p1@, %i as int); }'], end_s=['proof { suf_cut(p1@, %i as int); }'])], use='ascii_valid',
      proof=['proof { line_at(p1@, 0); line_all(p1@); }'], proof_s='proof { suf_cut(p1@, 0); }', ens_s=['ret is Ok', 'ret is Ok ==> suf(p1@, ret->Ok_0.0@)'])
    F('message__body', spec='sp_body', rel='conf0', use=['suf_trans', 'suf_all'], reveal=['sp_check_line'],
      loops=[dict(tail=T('l_lines_ok', '%new_input.sv()', 'true'), inv_s=['suf(p1@, %new_input@)'], dec='%new_input@.len()')])
    F('message__body_lines', spec='sp_body_lines', rel='conf0', reveal=['sp_line'],
      loops=[dict(tail=T('l_lines', '%input.sv() %lines.sv()', 'Some(%lines.sv())'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()')])
    F('message__parse_message', spec='sp_parse_message', rel='conf0')
    F('Email__parse', spec='sp_email', rel='conf0', reveal=['make_email', 'add_field'],
      loops=[dict(tail=T('l_headers', 'vs(%it.s) VHeaders{from:%from.sv(),sender:%sender.sv(),subject:%subject.sv(),date:%date.sv(),to:%to.sv(),cc:%cc.sv(),bcc:%bcc.sv(),message_id:%message_id.sv(),in_reply_to:%in_reply_to.sv(),references:%references.sv(),reply_to:%reply_to.sv(),comments:%comments.sv(),keywords:%keywords.sv(),trace:%trace.sv(),'
                  + ('mime_version:%mime_version.sv(),content_type:ctype_sv(%content_type),content_transfer_encoding:%content_transfer_encoding.sv(),content_id:%content_id.sv(),content_description:%content_description.sv(),content_disposition:%content_disposition.sv(),' if mime else '')
                  + 'unknown_fields:%unknown_fields.sv()}',
                  'Some(VHeaders{from:%from.sv(),sender:%sender.sv(),subject:%subject.sv(),date:%date.sv(),to:%to.sv(),cc:%cc.sv(),bcc:%bcc.sv(),message_id:%message_id.sv(),in_reply_to:%in_reply_to.sv(),references:%references.sv(),reply_to:%reply_to.sv(),comments:%comments.sv(),keywords:%keywords.sv(),trace:%trace.sv(),'
                  + ('mime_version:%mime_version.sv(),content_type:ctype_sv(%content_type),content_transfer_encoding:%content_transfer_encoding.sv(),content_id:%content_id.sv(),content_description:%content_description.sv(),content_disposition:%content_disposition.sv(),' if mime else '')
                  + 'unknown_fields:%unknown_fields.sv()})'), dec='%it.s.len()')], use='clone_axiom', rlimit=200)
    if mime:
        import mime_contracts
        mime_contracts.add(F, T, parse_loop)
    return C
