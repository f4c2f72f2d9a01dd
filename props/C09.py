import chan_unit
CH = ['sendcmdto_channel_butserv_butone', 'sendcmdto_one', 'sendjointo_one', 'sendcmdto_capflag_common_channels_butone']
PROP = dict(
    units=[
        dict(tu='contracts/c09_join.c', fns=['m_join', 'last0'], cfg=dict(noeffect=['need_more_params', 'sendto_opmask_butone', 'feature_str'])),
        dict(tu='contracts/c09_channel.c', fns=['joinbuf_join'], cfg=dict(noeffect=CH)),
        dict(tu='contracts/c09_add.c', fns=['add_user_to_channel'], cfg=dict(noeffect=CH)),
        chan_unit.unit('IsInvited'),
    ],
)

PROP['witness'] = dict(src='witness/c09.c', world=True)
PROP['assumptions'] = ['ircd_strtok() hands out the non-empty names of the list in order and writes only to the list; which G-line gline_find() finds, and the target-change limit, are given decisions; what find_ban() decides is C05',
                       'a membership record on the free list is in no channel and in no user list', 'the sending machinery does not write to modes or membership lists', 'joinbuf_flush() is not proved here']
