NOEFF = ['send_reply', 'need_more_params', 'sendcmdto_one', 'sendjointo_one', 'sendcmdto_channel_butserv_butone', 'sendto_opmask_butone',
         'modebuf_init', 'modebuf_mode_client', 'modebuf_flush']
PROP = dict(
    units=[
        dict(tu='contracts/c10_kick.c', fns=['m_kick', 'ms_kick'], cfg=dict(noeffect=NOEFF)),
        dict(tu='contracts/c10_channel.c', fns=['find_member_link', 'get_channel', 'find_chasing', 'channel_all_zombies', 'make_zombie'], cfg=dict(noeffect=['send_reply', 'sendcmdto_one'])),
    ],
)
PROP['witness'] = dict(src='witness/c10.c', world=True)
