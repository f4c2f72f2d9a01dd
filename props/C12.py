import chan_unit
CH = ['sendcmdto_channel_butserv_butone', 'sendcmdto_one', 'sendjointo_one', 'sendjointo_channel_butserv', 'sendcmdto_capflag_channel_butserv_butone', 'send_reply', 'sendto_opmask_butone', 'need_more_params', 'feature_bool']
PROP = dict(
    units=[
        dict(tu='contracts/c12_clients.c', fns=['mode_process_clients', 'RevealDelayedJoin', 'CheckDelayedJoins'], cfg=dict(noeffect=CH)),
        dict(tu='contracts/c12_parse.c', fns=['send_notoper', 'mode_parse_client'], cfg=dict(noeffect=CH + ['DoMalloc', 'strcpy', 'strlen', 'feature_int'])),
        chan_unit.unit(),
    ],
)

PROP['witness'] = dict(src='witness/c12.c', world=True)
PROP['assumptions'] = ['modebuf_mode_client() touches of the channel only the +d, +Z and +z bits', 'which client a name stands for and what number a level parameter spells (find_chasing, findNUser, atoi) is given', 'a MODE changes at most 15 members (MAXPARA), the parser\'s own limit']
