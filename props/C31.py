NE = ['msgq_clean', 'parse_tags', 'msg_tag_have_client_relay', 'msg_tag_s2s_needs_time', 'debug']
PROP = dict(
    units=[
        dict(tu='contracts/c31_send.c', fns=['bump_sentalong', 'sendcmdto_channel_butone', 'sendcmdto_channel_servers_butone', 'sendcmdto_channel_butserv_butone', 'sendcmdto_capflag_channel_butserv_butone',
                                             'sendcmdto_common_channels_butone', 'sendcmdto_capflag_common_channels_butone', 'sendcmdto_serv_butone', 'sendcmdto_flag_serv_butone', 'sendcmdto_match_butone'], cfg=dict(noeffect=NE)),
        dict(tu='contracts/c31_buffer.c', fns=['send_buffer', 'send_raw_buffer'], cfg=dict(noeffect=NE + ['sendto_opmask_butone', 'msg_tag_format_s2s', 'msg_tag_format', 'msg_tag_profile', 'client_add_sendq', 'update_write'])),
        dict(tu='contracts/c31_one.c', fns=['sendcmdto_one', 'sendcmdto_prio_one', 'sendwallto_group_butone'], cfg=dict(noeffect=NE)),
        dict(tu='contracts/c31_wire.c', fns=['make_wire_msgbuf']),
    ],
)
PROP['witness'] = dict(src='witness/c31.c', world=True, exclude=['send.c'])
PROP['assumptions'] = ['putting a message on a queue does not change memberships, links or the connection table', 'the connection table lists every open connection, each with its own client (con_client and cli_connect point at each other)',
                       'the text of the message is what msgq_make() formats from the given words']
