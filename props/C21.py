import chan_unit
PROP = dict(
    units=[
        dict(tu='contracts/c21_topic.c', fns=['m_topic', 'ms_topic'], cfg=dict(noeffect=['need_more_params', 'protocol_violation', 'feature_bool'])),
        dict(tu='contracts/c21_set.c', fns=['do_settopic'], cfg=dict(noeffect=['feature_bool', 'sendcmdto_one'])),
        chan_unit.unit(*chan_unit.SPEAK),
    ],
)
PROP['witness'] = dict(src='witness/c21.c', world=True)
PROP['assumptions'] = ['ircd_strtok() hands out non-empty names and writes only to the list it walks; a channel does not overlap the command parameters',
                       'ircd_strncpy() copies (C01 settles the comparison ircd_strncmp)']
