import chan_unit
PROP = dict(
    units=[
        dict(tu='contracts/c22_invite.c', fns=['m_invite', 'ms_invite'], cfg=dict(noeffect=['need_more_params', 'protocol_violation', 'feature_bool', 'send_reply', 'send_reply_blocked_unauth_user', 'sendcmdto_capflag_channel_butserv_butone', 'sendcmdto_channel_servers_butone', 'get_error_numeric'])),
        dict(tu='contracts/c08_user.c', fns=['is_silenced', 'should_block_unauth_user'], cfg=dict(noeffect=['send_reply', 'send_reply_blocked_unauth_user', 'feature_str'])),
        chan_unit.unit(),
    ],
)
PROP['witness'] = dict(src='witness/c22.c', world=True)
PROP['assumptions'] = ['the target-change limit is taken as a given decision; what find_ban() decides is C05',
                       'the sending machinery does not write to modes or membership lists']
