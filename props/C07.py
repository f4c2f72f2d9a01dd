NOEFF = ['send_reply', 'sendcmdto_one']
PROP = dict(
    units=[
        dict(tu='contracts/c07_channel.c', fns=['find_member_link', 'find_channel_member', 'member_can_send_to_channel', 'client_can_send_to_channel', 'RevealDelayedJoin', 'RevealDelayedJoinIfNeeded', 'CheckDelayedJoins'],
             cfg=dict(noeffect=['sendjointo_channel_butserv', 'sendcmdto_capflag_channel_butserv_butone', 'sendcmdto_channel_butserv_butone'])),
        dict(tu='contracts/c07_relay.c', fns=['relay_channel_message', 'relay_channel_notice', 'relay_channel_tagmsg', 'server_relay_channel_message',
                                              'server_relay_channel_notice', 'server_relay_channel_tagmsg'], cfg=dict(noeffect=NOEFF)),
        dict(tu='contracts/c07_wallchops.c', fns=['m_wallchops', 'ms_wallchops'], cfg=dict(noeffect=NOEFF)),
        dict(tu='contracts/c07_wallvoices.c', fns=['m_wallvoices', 'ms_wallvoices'], cfg=dict(noeffect=NOEFF)),
    ],
)
PROP['witness'] = dict(src='witness/c07.c', world=True)
PROP['assumptions'] = ['the spam filter (sline) and the target-change limit are taken as given decisions about a message; neither they nor the sending machinery write to the message text or to the command parameters',
                       'a text begins with "\\001ACTION " exactly when ircd_strncmp says so (C01)']
