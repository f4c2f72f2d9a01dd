PROP = dict(
    units=[
        dict(tu='contracts/c08_relay.c', fns=['has_common_channel'] + [a + b for a in ('relay_private_', 'server_relay_private_', 'relay_directed_') for b in ('message', 'notice', 'tagmsg')],
             cfg=dict(noeffect=['send_reply', 'send_reply_blocked_unauth_user', 'sendcmdto_channel_butone', 'sendcmdto_match_butone', 'feature_str'])),
        dict(tu='contracts/c08_user.c', fns=['is_silenced', 'should_block_unauth_user', 'whisper'], cfg=dict(noeffect=['send_reply', 'send_reply_blocked_unauth_user', 'feature_str'])),
        dict(tu='contracts/c08_masked.c', fns=[a + 'relay_masked_' + b for a in ('', 'server_') for b in ('message', 'notice', 'tagmsg')], cfg=dict(noeffect=['send_reply'])),
        dict(tu='contracts/c08_dispatch.c', extra=['-DPRIVMSG'], fns=['m_privmsg', 'mo_privmsg', 'ms_privmsg'], cfg=dict(noeffect=['send_reply'])),
        dict(tu='contracts/c08_dispatch.c', extra=['-DNOTICE'], fns=['m_notice', 'mo_notice', 'ms_notice'], cfg=dict(noeffect=['send_reply', 'protocol_violation'])),
        dict(tu='contracts/c08_dispatch.c', extra=['-DTAGMSG'], fns=['m_tagmsg', 'mo_tagmsg', 'ms_tagmsg'], cfg=dict(noeffect=['send_reply'])),
    ],
)
PROP['witness'] = dict(src='witness/c08.c', world=True)
PROP['assumptions'] = ['the spam filter (sline) and the target-change limit are taken as given decisions about a message; they, add_target and the sending machinery do not write to the message text, the modes or the membership lists',
                       'what find_ban() and match() decide is C05 and C06; the lookup of names and numerics is C02 and C03',
                       'unique_name_vector() splits a list into its distinct names; sending to one name does not change the others',
                       'strrchr() returns null or the last place of the character; sendcmdto_match_butone() is under contract in C31',
                       'strchr() returns null or the place of the character']
