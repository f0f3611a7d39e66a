"""Contracts of the MIME functions."""


def add(F, T, parse_loop):
    def T2(f, args, out):
        return (f, args, out)

    for k in ('ContentType', 'ContentTransferEncoding', 'DispositionType'):
        F(k + '__into_owned', ens='ret.sv() == p1.sv()')
    put_loop = lambda it, acc: dict(tail=T2('l_put', ['vs(%' + it + '.s)', 'svf(%' + acc + ')'], 'svf(%' + acc + ')'), dec='%' + it + '.s.len()')
    F('Disposition__into_owned', ens='ret.sv() == p1.sv()', loops=[put_loop('it', 'acc')])
    F('ContentType__is_composite_type', ens='ret == (p1.sv() == VMime::Message || p1.sv() == VMime::Multipart)')

    F('common__lowercase', spec='lower_s', spargs='p1.sv()', rel='is_sv', use='no_capitals',
      loops=[dict(inv=['!%change_needed ==> forall|j: int| 0 <= j < p1.cs().len() - %it.s.len() ==> !is_upper(#[trigger] p1.cs()[j])', '%it.s == p1.cs().skip(p1.cs().len() - %it.s.len())', '%it.s.len() <= p1.cs().len()'], dec='%it.s.len()')])
    F('base64__get_value_encoded', ens=['match ret { Some(v) => cls(Cls::B64, p1) && v as int == b64_val(p1), None => !cls(Cls::B64, p1) }'], ens_s=['ret is Some ==> ret->Some_0 < 64'], reveal='b64_val')

    # ---- encoded words ---------------------------------------------------------------------
    F('encoded_headers__charset', spec='sp_charset', prog='strict')
    F('encoded_headers__encoding', spec='sp_encoding', prog='strict')
    F('encoded_headers__encoded_text', spec='sp_encoded_text', prog='strict')
    F('encoded_headers__encoded_word', spec='sp_encoded_word', prog='strict', reveal=['charset_no', 'decode_text'], hide=True)
    F('mime__decode_iso6937', spec='fix_tc', spargs='p1@', rel='is_sv', use='fix_is',
      loops=[dict(inv_s=['%data@.len() == p1@.len()', '%k <= %data@.len()', 'forall|j: int| 0 <= j < %k ==> !(128 <= #[trigger] %data@[j] && %data@[j] <= 159)'],
                  inv=['forall|j: int| 0 <= j < %k ==> #[trigger] %data@[j] == fix6937(p1@[j])', 'forall|j: int| %k <= j < p1@.len() ==> #[trigger] %data@[j] == p1@[j]'],
                  dec='%data@.len() - %k')])
    F('common__mime_unstructured', spec='sp_mime_unstructured', prog='weak',
      loops=[dict(tail=T2('l_munstr', ['%input.sv()', '%previous_was_encoded', '%result.sv()'], '(%input.sv(), %result.sv())'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()'),
             dict(tail=T('l_wsp', '%input.sv()', '%input.sv()'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()')])

    # ---- fields ----------------------------------------------------------------------------
    F('mime_fields__token', spec='sp_mtoken', prog='strict')
    F('mime_fields__ignore_inline_cfws', spec='sp_inline_cfws', prog='weak')
    F('mime_fields__mime_version__u8_number', spec='sp_u8_number', prog='strict', loops=[parse_loop('l_u8', ['number'], 'Some((%input.sv(), %number.sv()))', inv_s=['%input@.len() < p1@.len()'])])
    F('mime_fields__mime_version', spec='sp_h_mime_version', prog='strict')
    F('mime_fields__content_id', spec='sp_h_content_id', prog='strict')
    F('mime_fields__content_description', spec='sp_h_content_description', prog='strict')
    F('mime_fields__content_transfer_encoding', spec='sp_h_content_transfer_encoding', prog='strict', reveal='sp_transfer_encoding')
    F('mime_fields__content_type', spec='sp_h_content_type', rel='conf_ct', prog='strict', reveal='sp_mime_type', loops=[parse_loop('l_params', ['results'], inv_s=['%input@.len() < p1@.len()'])])
    F('mime_fields__parameter', spec='sp_parameter', prog='strict', reveal=['sp_pname_any', 'sp_pname'], use='run_digits')
    F('mime_fields__content_disposition__filename_parameter', spec='sp_filename', prog='strict')
    F('mime_fields__content_disposition__date_parameter', spec='sp_date_param', spargs='p1@, p2@', prog='strict', req_s=['opp(p2@, p3@)', 'valid_utf8(p2@)', 'valid_utf8(p3@)'])
    dv = 'VDispParams{filename:%disposition.filename.sv(),creation_date:%disposition.creation_date.sv(),modification_date:%disposition.modification_date.sv(),read_date:%disposition.read_date.sv(),params:%parameters_vec.sv()}'
    F('mime_fields__content_disposition', spec='sp_h_content_disposition', prog='strict', reveal='sp_disposition_type',
      proof_s=['proof { assert(opp(b"%s", b"%s")) by (compute_only); }' % (n, n.upper()) for n in ('creation-date', 'modification-date', 'read-date')],
      loops=[dict(tail=T2('l_disp', ['%input.sv()', dv], '(%input.sv(), ' + dv + ')'), inv_s=['%input@.len() < p1@.len()'], inv=['%disposition.disposition_type.sv() == %disposition_type.sv()'], dec='%input@.len()')])

    # ---- to do: bodies ---------------------------------------------------------------------
    TODO = dict()
    def b64_loop(k, f, args, opt):
        at = '%data@[%i as int' + (' + %d' % k if k else '') + ']'
        rest = '%%data@.skip(%%i + %d)' % k if k else '%data@.skip(%i as int)'
        return dict(tail=T2(f, [rest] + args + ['acc0'], None), pre_s='let ghost z%d = %%i - %%offset;' % k, inv_s=['%i >= i0', '%%i - %%offset == z%d' % k, '%offset <= %i', '%%i + %d <= %%data@.len()' % k],
                    ens_s=['%%i + %d < %%data@.len()' % k, 'lt64(%bv)' if not opt else 'olt64(%bv)'],
                    ens=['b64%s_is(%%bv, %s)' % ('o' if opt else '', at)] + (['oint(%b3) is None ==> oint(%bv) is None'] if k == 3 else []), dec='%data@.len() - %i',
                    body='proof { b64_at%d(%%data@, %%i + %d, %s); }' % (k + 1, k, ', '.join(args + ['acc0'])))
    F('base64__decode_base64', spec='sp_decode_b64', rel='conf_v', use=['gbits', 'vec_space'],
      loops=[dict(usz=['i', 'offset'], tail=T2('l_b64', ['%data@.skip(%i as int)', '%data@.take(%i - %offset)'], 'Some(%data@.take(%i - %offset))'), inv_s=['%offset <= %i', '%i <= %data@.len()'], dec='%data@.len() - %i',
                  body_s='let ghost i0 = %i as int;', body='let ghost d0 = %data@; let ghost acc0 = %data@.take(%i - %offset); let ghost k0 = %i - %offset;',
                  end='proof { b64_put(d0, %data@, k0, %i - %offset - k0, %i as int, %b1, %b2, %b3, %b4); }'),
             b64_loop(0, 'l_b64', [], False), b64_loop(1, 'b64_q2', ['%b1 as int'], False), b64_loop(2, 'b64_q3', ['%b1 as int', '%b2 as int'], True),
             b64_loop(3, 'b64_q4', ['%b1 as int', '%b2 as int', 'oint(%b3)'], True)], noreveal=True, reveal='sp_decode_b64')
    F('base64__encode_base64', spec='sp_encode_b64', rel='is_v', use=['gbits', 'b64_map', 'gadd'], noreveal=True, reveal='sp_encode_b64',
      loops=[dict(tail=T2('l_eb64', ['%bytes.s', '%line_lenght as int', '%encoded_data@'], '%encoded_data@'), inv_s=['0 <= %line_lenght <= 76'], dec='%bytes.s.len()',
                  body='proof { eb64_unfold(%bytes.s, %line_lenght as int, %encoded_data@); }', end='proof { eb64_unfold(%bytes.s, %line_lenght as int, %encoded_data@); }')])
    def qp(key, sp, l, at, step, extra=()):
        x = ''.join(', %' + e + ' as int' for e in extra)
        F(key, spec=sp, rel='is_v', noreveal=True, rlimit=160, reveal=[sp, 'hexval', 'hexchar'], use='vec_space',
          loops=[dict(usz=['idx'], tail=T2(l, ['%data@.skip(%idx as int)'] + ['%' + e + ' as int' for e in extra] + ['%data@.take(%idx as int)'], '%data@'), inv_s=['%idx <= %data@.len()'] + ['0 <= %' + e + ' <= 75' for e in extra],
                      dec='%data@.len() - %idx', body='let ghost d0 = %data@; let ghost i0 = %idx as int; let ghost st = ' + step + '(d0.skip(i0)' + x + '); proof { ' + at + '(d0, i0' + x + '); }',
                      end='proof { assert(%data@ =~= splice(d0, i0, st.0, st.1)); }')])
    qp('quoted_printables__decode_qp', 'sp_decode_qp', 'l_qp', 'qp_at', 'qp_step')
    qp('quoted_printables__decode_header_qp', 'sp_decode_header_qp', 'l_hqp', 'hqp_at', 'hqp_step')
    qp('quoted_printables__encode_qp', 'sp_encode_qp', 'l_eqp', 'eqp_at', 'eqp_step', ['line_lenght'])
    F('percent_encoding__collect_parameters', spec='sp_collect', spargs='p1.sv()', rel='conf0', noreveal=True, reveal=['sp_join'], use=['ms_insert', 'ms_remove', 'suf_valid', 'insert_twice', 'clone_axiom'], hide=True,
      proof='let ghost ps = p1.sv(); let ghost cx = l_sections(ps, Map::empty()); let ghost pl = l_plain(ps, Map::empty()); proof { collect_is(ps); ms_empty::<S, Cow<str>>(); ms_empty::<S, HMap<u8, (bool, Cow<str>)>>(); ms_empty::<int, (bool, Cow<str>)>(); }',
      loops=[dict(tail=[T2('l_plain', ['vs(%it.s)', 'svf(%parameters)'], 'svf(%parameters)'), T2('l_sections', ['vs(%it.s)', 'svf(%complex_parameters)'], 'svf(%complex_parameters)')], dec='%it.s.len()',
                  body='proof { plain_at(vs(%it.s), svf(%parameters), svf(%complex_parameters)); }'),
             dict(pre='proof { part_start(pl, cx, vs(%it.s)); }', inv=['part(svf(%parameters), pl, cx, vs(%it.s))', 'ents(vs(%it.s), cx)'], dec='%it.s.len()', ens='%it.s.len() == 0',
                  body='let ghost s1 = vs(%it.s); let ghost m1 = svf(%parameters); proof { part_at(m1, pl, cx, s1); }'),
             dict(xb=True, u8t=['idx'], pre='proof { agree_start(s1[0].1); }', tail=T2('l_join', ['s1[0].1', '%charset.sv()', '%idx as int', '%value.sv()'], 'Some(%value.sv())'), inv_x=['agree(%values.sv(), s1[0].1, %idx as int)'],
                  dec='256 - %idx', body='proof { join_at(%values.sv(), s1[0].1, %charset.sv(), %idx as int, %value.sv()); }')])
    F('percent_encoding__decode_parameter', spec='sp_decode_parameter', spargs='p1@, p2.sv()', rel='conf0', req_s='valid_utf8(p1@)', noreveal=True, hide=True, reveal='hexval', use=['gtext', 'vec_space'],
      proof='proof { param_cases(p1@, p2.sv()); }',
      loops=[dict(usz=['percent'], tail=T2('l_percent', ['%input@.skip(%percent as int)', '%input@.take(%percent as int)'], '%input@'), inv_s=['%percent <= %input@.len()'], dec='%input@.len() - %percent',
                  body='let ghost d0 = %input@; let ghost i0 = %percent as int; let ghost st = pct_step(d0.skip(i0)); proof { pct_at(d0, i0); }', end='proof { assert(%input@ =~= splice(d0, i0, st.0, st.1)); }')])
    F('entity__raw_entity', spec='sp_raw_entity', spargs='p1.sv()', rel='conf0')
    pv = 'VPart{encoding:%encoding.sv(),content_type:ctype_sv(%mime_type),id:%id.sv(),description:%description.sv(),disposition:%disposition.sv(),additional:%additional_headers.sv()}'
    F('entity__header_part', spec='sp_part', rel='conf_part', ens_s='ret is Ok ==> ret->Ok_0.0 <= p1@.len()', hide=True,
      loops=[dict(tail=T2('l_part', ['%input.sv()', pv], '(%input.sv(), ' + pv + ')'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()')])
    F('entity__header_part_owned', spec='sp_part', rel='conf_part', ens_s='ret is Ok ==> ret->Ok_0.0 <= p1@.len()', use='gcat',
      loops=[put_loop('it', 'acc'), dict(tail=T2('l_cat', ['vs(%it.s)', 'svf(%acc)'], 'svf(%acc)'), dec='%it.s.len()')])

    # ---- entities --------------------------------------------------------------------------
    F('entity__decode_value', spec='sp_decode_value', spargs='p1.sv(), p2.sv()', rel='conf0')
    F('entity__entity', spec='sp_entity', spargs='p1.sv()', rel='conf0', noreveal=True, proof='proof { entity_cases(p1); }', use='gtext', hide=True)
    F('RawEntity__parse', spec='sp_entity', spargs='p1.sv()', rel='conf0')
    find_loop = lambda line, lem: dict(sub={'idx_end': 'p1@.len()'}, tail=T2('find_from', ['p1@', line + '(p2@)', '%idx as int'], 'None::<int>'), inv_s=['%idx <= %idx_end', '%idx_end == p1@.len()'], dec='%idx_end - %idx', body='proof { ' + lem + '(p1@, p2@, %idx as int); }')
    F('multipart__before_boundary_idx', spec='sp_boundary_at', spargs='p1@, p2@', rel='conf0', proof_s='proof { slice_space(p1); slice_space(p2); }', proof='proof { first_at(p1@, p2@); mid_at(p1@, p2@, 0); }', loops=[find_loop('line_mid', 'mid_at')],
      ens_s='ret is Ok ==> ret->Ok_0.0 + ret->Ok_0.1 <= p1@.len() && ret->Ok_0.1 > 0')
    F('multipart__before_closing_boundary_idx', spec='sp_closing_at', spargs='p1@, p2@', rel='conf0', proof_s='proof { slice_space(p1); slice_space(p2); }', proof='proof { end_at(p1@, p2@, 0); }', loops=[find_loop('line_end_', 'end_at')],
      ens_s='ret is Ok ==> ret->Ok_0.0 + ret->Ok_0.1 <= p1@.len() && ret->Ok_0.1 > 0')
    F('multipart__before_boundary', spec='sp_before_boundary', spargs='p1@, p2@', prog='strict', proof_s='proof { slice_space(p1); }')
    F('multipart__before_closing_boundary', spec='sp_before_closing', spargs='p1@, p2@', prog='strict', proof_s='proof { slice_space(p1); }')
    F('multipart__parse_multipart', spec='sp_multipart', spargs='p1@, p2.sv()', rel='conf0',
      loops=[dict(tail=T2('l_parts', ['%input.sv()', '%boundary.sv()', '%results.sv()'], '(%input.sv(), %results.sv())'), inv_s=['%input@.len() <= p1@.len()'], dec='%input@.len()'),
             dict(tail=T2('l_entities', ['vs(%it.s)', '%entities.sv()'], 'Some(%entities.sv())'), dec='%it.s.len()')])
