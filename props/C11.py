import chan_unit
CH = ['sendcmdto_channel_butserv_butone', 'sendcmdto_one', 'sendjointo_one', 'sendjointo_channel_butserv', 'sendcmdto_capflag_channel_butserv_butone', 'send_reply', 'sendto_opmask_butone', 'need_more_params', 'feature_bool']
PROP = dict(
    units=[
        dict(tu='contracts/c11_mode.c', fns=['m_mode', 'ms_mode'], cfg=dict(noeffect=['need_more_params', 'send_reply', 'sendwallto_group_butone', 'modebuf_init', 'find_conf_byhost', 'feature_bool'])),
        dict(tu='contracts/c11_parse.c', fns=['mode_parse'], cfg=dict(noeffect=CH + ['feature_bool'], const_globals=['mode_parse::1::chan_flags'])),
        dict(tu='contracts/c12_parse.c', fns=['send_notoper', 'mode_parse_client', 'mode_parse_limit', 'is_clean_key', 'mode_parse_key', 'mode_parse_upass', 'mode_parse_apass', 'mode_parse_mode', 'mode_parse_ban', 'mode_process_bans', 'mode_drop_bans'], cfg=dict(noeffect=CH + ['DoMalloc', 'strcpy', 'strlen', 'feature_int'])),
        chan_unit.unit(),
    ],
)

PROP['witness'] = dict(src='witness/c11.c', world=True)
PROP['assumptions'] = ['taking the parser\'s own bans off the list again (mode_process_bans, mode_drop_bans) is assumed of the list surgery, and exercised by the replay driver', 'modebuf_*() touch of the channel only the +d, +Z and +z bits', 'fewer than 2^31 bans change per message; parameters are at most 512 bytes long',
                       'which client, channel or limit a name or number stands for (find_chasing, findNUser, hSeekChannel, strtoul, atoi) is given', 'a local user who passes the entitlement check as op is on the channel (proved in m_mode, required in mode_parse)']
